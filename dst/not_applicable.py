"""Properties of cyclus that this family of technique does not decide here."""


def _p(pid, title, statement, over, text, why, files):
    return dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[], observe_at=[], hook_needed=None))


NA = [
    dict(prop=_p("N01", "Decay and transmutation follow the physics of the nuclides",
                 "Decaying a composition over any time yields the nuclide amounts given by the decay data, mass is conserved up to "
                 "emitted particles, and decaying in two steps equals decaying once over their sum.",
                 ["inputs"], "for every composition and time", "Numerical identity over all compositions.",
                 ["src/composition.cc", "src/pyne.cc", "src/material.cc"]),
         reason="A pure numerical function with no schedule, time, I/O or fault to simulate; besides, the decay solver's generated "
                "symbols and the nuclear data file are absent from this build, so there is nothing real to run."),
    dict(prop=_p("N02", "Enrichment and symbolic-function maths are correct",
                 "Separative work, feed and tails computed from assays balance mass, and symbolic functions evaluate to the "
                 "mathematical function their parameters describe.",
                 ["inputs"], "for every assay and parameter set", "Mathematical identities over all real inputs.",
                 ["src/toolkit/enrichment.cc", "src/toolkit/symbolic_functions.cc"]),
         reason="Pure arithmetic on one input: no concurrency, time, I/O or multi-party behaviour for a simulated schedule or fault "
                "to act on."),
    dict(prop=_p("N03", "The preprocessor generates code that restores every annotated state variable",
                 "For every archetype, the code cycpp generates for schema, input, snapshot, restart and clone carries each annotated "
                 "state variable through unchanged.",
                 ["inputs"], "for every annotated archetype source", "A property of a source-to-source translator over all sources.",
                 ["cyclus/cycpp.py"]),
         reason="A compile-time translation of one text into another: nothing in it depends on scheduling, time, I/O or crashes. "
                "The run-time half (a snapshot restores what agents wrote) is P15."),
    dict(prop=_p("N04", "Parallel builds produce the same simulation as serial ones",
                 "With the kernel built for several threads, ticks and tocks run in parallel leave the same output and state as a "
                 "serial run.",
                 ["schedules"], "for every interleaving of the agents' ticks and tocks", "Interleavings cannot be sampled by tests.",
                 ["src/timer.cc", "src/context.cc", "src/recorder.cc"]),
         reason="The OpenMP build is off in this environment (CMake option off, single-threaded libcyclus), so the shipped system has "
                "no interleavings; a simulated scheduler would be deciding code that is not built. DESIGN.md notes what reading "
                "the code shows."),
]

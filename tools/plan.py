"""What each property's check builds, explores and assumes."""

BUILDS = {
    "mcrel": dict(crate="mc", profile="mcrel"),
    "mcdbg": dict(crate="mc", profile="mcdbg"),
    # the second interoperation configuration: no knowledge of the foreign buffer's internals
    # the controlled scheduler; the code under test instrumented by the compiler
    "mccrel": dict(crate="mcc", profile="mcrel", dir="mcc"),
    "mccdbg": dict(crate="mcc", profile="mcdbg", dir="mcc"),
    # without allocation support
    "mcnrel": dict(crate="mcn", profile="mcrel", dir="mcn"),
    "mcndbg": dict(crate="mcn", profile="mcdbg", dir="mcn"),
    "mcsafe": dict(crate="mc", profile="mcrel", features="safe", dir="safe"),
}

ASSUME = [
    "the harness's reference models (byte vectors and simple functions over them), its ledger allocator and its explorer are right",
    "inputs, operation alphabets and depths beyond the stated bounds are not covered",
    "x86-64 Linux, little endian, 64-bit; the pinned nightly compiler",
]


def both(**kw):
    return [dict(build="mcrel", **kw), dict(build="mcdbg", **kw)]


PLAN = {
    "C01": dict(parts=both(), bounds="see DESIGN.md C01"),
    "C02": dict(parts=[dict(build="mcrel"), dict(build="mcdbg", suites=["layouts_ops", "runs", "append_pairs", "constructors", "string_queue"])], bounds="see DESIGN.md C02"),
    "C03": dict(parts=both(), bounds="see DESIGN.md C03"),
    "C04": dict(parts=both(), bounds="see DESIGN.md C04"),
    "C05": dict(parts=both(), bounds="see DESIGN.md C05"),
    "C06": dict(parts=[dict(build="mccrel"), dict(build="mccdbg")], technique="controlled-scheduler model checking of the real code: every interleaving of its atomic operations (sleep sets) and every stale value its memory orderings allow, vector-clock race and release checks on every memory access, seen through compiler instrumentation", bounds="see DESIGN.md C06"),
    "C07": dict(parts=both(), bounds="see DESIGN.md C07"),
    "C08": dict(parts=both(), bounds="see DESIGN.md C08"),
    "C09": dict(parts=both(), bounds="see DESIGN.md C09"),
    "C10": dict(parts=both(), bounds="see DESIGN.md C10"),
    "C11": dict(parts=both() + [dict(build="mcsafe")], bounds="see DESIGN.md C11"),
    "C12": dict(parts=both(), bounds="see DESIGN.md C12"),
    "C13": dict(parts=both(), bounds="see DESIGN.md C13"),
    "C14": dict(parts=both(), bounds="see DESIGN.md C14"),
    "C15": dict(parts=both() + [dict(build="mccrel"), dict(build="mccdbg")], technique="exhaustive enumeration of request histories and controlled-scheduler model checking of the real code: every interleaving of its atomic operations (sleep sets) and every stale value its memory orderings allow, vector-clock race and release checks on every memory access, seen through compiler instrumentation", bounds="see DESIGN.md C15"),
    "C16": dict(parts=both(), bounds="see DESIGN.md C16"),
    "C17": dict(parts=both(), bounds="see DESIGN.md C17"),
    "C18": dict(parts=both(), bounds="see DESIGN.md C18"),
    "C19": dict(parts=both(), bounds="see DESIGN.md C19"),
    "C20": dict(parts=both(), bounds="see DESIGN.md C20"),
    "C21": dict(parts=[dict(build="mcnrel"), dict(build="mcndbg")], bounds="see DESIGN.md C21"),
}

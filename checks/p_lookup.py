from .base import Prop, S
from .p_lifecycle import ASSUME


def lo(name, quick=60000, thorough=300000, covers=("found", "missing"), tier="both", **args):
    return S(name, "lookup:lookup", args, quick, thorough, covers, tier)


FEW = ["/sx/a", "/sx/b", ""]
TWO = ["absent", "exec"]

PROPS = [
    Prop("C28", [
        lo("one", n=1, alphabet="a"),
        lo("two", n=2, alphabet="a", kinds=["str"], dirs=FEW, envs=False),
        lo("two-env", n=2, alphabet="a", kinds=["bytes"], dirs=["/sx/a", ""], states=TWO),
        lo("three", n=3, alphabet="a", kinds=["str"], dirs=["/sx/a", "", "/sx/b"], states=TWO, envs=False, tier="thorough"),
        lo("name2", n=1, length=2, kinds=["str", "path"], dirs=["/sx/a", ""], envs=False, covers=("found", "missing", "given")),
        lo("name3", n=1, length=3, kinds=["bytes"], dirs=["/sx/a"], states=TWO, envs=False,
           covers=("found", "missing", "given")),
        lo("context", n=1, alphabet="a", how="context"),
        lo("both", n=2, alphabet="a/", length=2, kinds=["str"], dirs=["/sx/a", ""], states=["absent", "exec", "dir"],
           how="both", envs=False, covers=("found", "missing", "given")),
        lo("pipeline", n=1, alphabet="a", kinds=["str"], dirs=["/sx/a", "", "/sx/b"], states=TWO, count=2, envs=False),
        lo("pipeline-both", n=1, alphabet="a", kinds=["str"], dirs=["/sx/a", ""], states=TWO, count=2, how="both",
           envs=False),
        lo("all2", n=2, alphabet="a", kinds=["str"], tier="thorough"),
        lo("names", n=1, length=3, how="both", envs=False, tier="thorough", covers=("found", "missing", "given")),
    ], bounds="Names of 1 to 3 characters over {letter, '.', '/'} as str, bytes, Path and path-like; search paths of up "
        "to 2 entries (3 in the thorough tier) out of 6 (absolute, empty, '.', relative, trailing slash) set on the "
        "context, the command or both, empty, or not set; PATH of the parent unset, empty or set; the child's own PATH; "
        "every candidate file absent, executable, not executable, a directory or in an unreadable directory, decided when "
        "it is looked at; pipelines of 2.",
        outside="Windows; files that change between the search and the launch; an executable file of a wrong format.",
        assumptions=ASSUME + ("Without PATH the system's default path holds no such program.",)),
]

"""Process configurations (environment, interpreter options) replicas are started in."""
BASE = {"base": {}}

# C14: replicas of the base process in other start-up environments
C14 = {
    "base": {},
    "hash": {"env": {"PYTHONHASHSEED": "1"}, "aslr_off": False, "max": 4},
    "opt": {"opt": "-O", "env": {"PYTHONHASHSEED": "777"}, "max": 4},
    "tc": {"env": {"COORDINAX_ENABLE_RUNTIME_TYPECHECKING": "beartype.beartype", "PYTHONHASHSEED": "3"}, "max": 4},
    "oo": {"opt": "-OO", "env": {"PYTHONHASHSEED": "424242", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kathmandu", "COORDINAX_ENABLE_RUNTIME_TYPECHECKING": "None",
                                 "HOME": "/nonexistent", "LANG": "C", "COLUMNS": "20", "TERM": "dumb", "NO_COLOR": "1"}, "aslr_off": False, "max": 4},
}
C15 = {"base": {}, "hash": {"env": {"PYTHONHASHSEED": "1"}, "aslr_off": False, "max": 4}, "opt": {"opt": "-O", "env": {"PYTHONHASHSEED": "777"}, "max": 4}}
C09 = {**C15, "oo": {k: v for k, v in C14["oo"].items()}}
C10 = C15

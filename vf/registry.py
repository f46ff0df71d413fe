MODULE = {}
for _m, _ids in {
    "cpe": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11",
    "base": "C10 C12 C13",
    "setenv": "C14 C15 C16 C17 C18 C19 C30 C31 C32 C33",
    "keywords": "C20 C21 C22 C23 C26",
    "tools": "C24 C25 C27 C28 C29",
    "isolate": "C34",
}.items():
    for _i in _ids.split():
        MODULE[_i] = _m

"""Knowledge of external libraries as handlers for the C++ summariser."""
from .nf import *


def _key(S, e, qs):
    return mk("cfg", S.val(e[2]), S.val(e[3][0]))


def _load(S, e, qs):
    v = S.val(e[3][0])
    if v.op == "c" and v.args[0].endswith("c_str"):
        v = v.args[2]
    return mk("cfgfile", v)


def _read(S, e, qs):
    args = e[3]
    v = mk("cfg", S.val(args[0]), S.val(args[1]))
    if len(args) > 2:
        # the optional flag decides whether a missing key is an error: part of the fact
        opt = S.val(args[3]) if len(args) > 3 else boolt(F)
        if opt.op == "b" and opt.args[0] == F:
            S.write(S.loc(args[2]), v, e[6])
        else:
            S.write(S.loc(args[2]), mk("cfgopt", v, opt), e[6])
        return mk("none")
    return v


def _as(S, e, qs):
    return S.val(e[2])


def _cstr(S, e, qs):
    return S.val(e[2])


def _compare(S, e, qs):
    if len(e[3]) != 1:
        return NotImplemented
    a, b = S.val(e[2]), S.val(e[3][0])
    # ==0 iff equal; keep the sign opaque
    return ite(eq(a, b), ZERO, ONE)


def _substr(S, e, qs):
    return mk("substr", S.val(e[2]), *[S.val(a) for a in e[3]])


YAML = {
    "YAML::Node::operator[]": _key,
    "YAML::LoadFile": _load,
    "YAML::ReadParameter": _read,
    "YAML::Node::as": _as,
    "std::basic_string::c_str": _cstr,
    "std::basic_string::compare": _compare,
    "std::basic_string::substr": _substr,
}

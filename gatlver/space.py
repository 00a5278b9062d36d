"""The algebras that GATL's front-end headers define, and extra ones defined by the harness."""
from .oracle import Space, euclid, conformal


class Sp:
    def __init__(self, name, n, metric, names, header=None, pre=""):
        self.name, self.n, self.o = name, n, metric
        self.names = names
        self.header = f"gatl/{name}.hpp" if header is None else header
        self.pre = pre


SP = {}


def add(s):
    SP[s.name] = s


for d in range(1, 6):
    add(Sp(f"ga{d}e", d, euclid(d), [f"e{i}" for i in range(1, d + 1)]))
for d in range(1, 5):
    add(Sp(f"ga{d}h", d + 1, euclid(d + 1), [f"e{i}" for i in range(1, d + 1)] + ["ep"]))
for d in range(1, 4):
    add(Sp(f"ga{d}m", d + 2, euclid(d + 1, 1), [f"e{i}" for i in range(1, d + 1)] + ["ep", "em"]))
    add(Sp(f"ga{d}c", d + 2, conformal(d), [f"e{i}" for i in range(1, d + 1)] + ["no", "ni"]))
add(Sp("ga3p", 4, euclid(3, 0, 1), ["e1", "e2", "e3", "e0"]))
add(Sp("ga2p", 3, euclid(2, 0, 1), ["e1", "e2", "e0"]))
add(Sp("ga4p", 5, euclid(4, 0, 1), ["e1", "e2", "e3", "e4", "e0"]))
add(Sp("ga1p", 2, euclid(1, 0, 1), ["e1", "e0"]))

_PRE = """#include <gatl/ga/core.hpp>
#include <gatl/ga/util.hpp>
#include <gatl/ga/extra.hpp>
#include <gatl/ga/model/%s>
namespace vfs {
    using namespace ga;
    %s
    _GA_CORE_OVERLOAD(space)
    _GA_UTIL_OVERLOAD(space)
    _GA_EXTRA_OVERLOAD(space, basis_vectors_names)
}
"""


def signed(name, p, q, r):
    n = p + q + r
    q_ = ", ".join(f'"e{i}"' for i in range(1, n + 1))
    pre = _PRE % ("signed/metric_space.hpp>\n#include <gatl/ga/model/signed/macro_for_algebra_definition.hpp", f"_GA_SIGNED_ALGEBRA_DEFINITION(space, basis_vectors_names, {p}, {q}, {r}, {q_})")
    s = Sp(name, n, euclid(p, q, r), [f"e{i}" for i in range(1, n + 1)], header="", pre=pre)
    s.ns = "vfs"
    add(s)


def general(name, rows):
    n = len(rows)
    q_ = ", ".join(f'"e{i}"' for i in range(1, n + 1))
    m = {(i, j): rows[i][j] for i in range(n) for j in range(i, n)}
    ent = ", ".join(str(x) for r in rows for x in r)
    pre = _PRE % ("general.hpp", f"using space_t = constant_general_metric_space_t<{ent}>; static space_t const space; "
                  f"static std::array<std::string, {n}> const basis_vectors_names = {{ {q_} }};")
    s = Sp(name, n, Space(n, m), [f"e{i}" for i in range(1, n + 1)], header="", pre=pre)
    s.ns = "vfs"
    add(s)


signed("s211", 2, 1, 1)
signed("s121", 1, 2, 1)
signed("s111", 1, 1, 1)
signed("s022", 0, 2, 2)
signed("s030", 0, 3, 0)
signed("s400", 4, 0, 0)
signed("s130", 1, 3, 0)
general("g3", [[2, 1, 0], [1, -1, 3], [0, 3, 0]])
general("g2", [[0, 1], [1, 0]])
general("g3d", [[2, 0, 0], [0, -3, 0], [0, 0, 1]])
general("g4", [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1], [0, 0, -1, 0]])
general("g3n", [[0, 0, 1], [0, 1, 0], [1, 0, 0]])
general("g3f", [[1, 2, 3], [2, 5, 7], [3, 7, -1]])
general("g4f", [[0, 1, 2, 1], [1, 3, 0, -1], [2, 0, 1, 2], [1, -1, 2, 0]])
signed("s63", 63, 0, 0)
signed("s63m", 30, 25, 8)
signed("s62m", 30, 32, 0)
signed("s12", 5, 5, 2)
signed("s33", 33, 0, 0)


def conf(name, d):
    """A conformal space of another dimension than the predefined ones."""
    n = d + 2
    q_ = ", ".join(f'"e{i}"' for i in range(1, n + 1))
    pre = _PRE % ("conformal/metric_space.hpp", f"using space_t = conformal_metric_space<{d}>; static space_t const space; static std::array<std::string, {n}> const basis_vectors_names = {{ {q_} }};")
    s = Sp(name, n, conformal(d), [f"e{i}" for i in range(1, n + 1)], header="", pre=pre)
    s.ns = "vfs"
    add(s)


conf("c8", 8)
conf("c32", 32)

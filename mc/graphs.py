"""The factor alphabet that C01, C02 and others build graphs from.

The names are plain strings, so that the driver can enumerate sequences without JAX."""

import functools
import itertools

# name -> (function in mc.lab, arguments)
LETTERS = {
    # One class, one signature: grouped together, told apart by variables and parameters
    "u2a": ("generic", dict(signature=("R2",), indices=(0,))),
    "u2b": ("generic", dict(signature=("R2",), indices=(1,), variant=1)),
    "u2c": ("generic", dict(signature=("R2",), indices=(2,), variant=2)),
    "u2r3": ("generic", dict(signature=("R2",), indices=(0,), res_dim=3, variant=1)),
    # Same class, different noise, static field, or leaf shapes: separate groups
    "u2full": ("generic", dict(signature=("R2",), indices=(1,), noise="full", variant=1)),
    "u2upper": ("generic", dict(signature=("R2",), indices=(0,), noise="upper", variant=2)),
    "u2fullcov": ("generic", dict(signature=("R2",), indices=(0,), noise="fullcov", variant=3)),
    "u2huber": ("generic", dict(signature=("R2",), indices=(0,), noise="huber-diag", variant=1)),
    "u2huberfull": ("generic", dict(signature=("R2",), indices=(1,), noise="huber-full", variant=0)),
    "u2shift": ("generic", dict(signature=("R2",), indices=(0,), mode="shifted")),
    "u2shiftb": ("generic", dict(signature=("R2",), indices=(1,), mode="shifted", variant=2)),
    "u2ex2": ("generic", dict(signature=("R2",), indices=(0,), extra=2, variant=1)),
    "u2ex3": ("generic", dict(signature=("R2",), indices=(0,), extra=3, variant=2)),
    "u2float": ("generic", dict(signature=("R2",), indices=(1,), scalar="float", variant=2)),
    # Binary factors: both directions, self loops, shared and mixed types
    "b01": ("generic", dict(signature=("R2", "R2"), indices=(0, 1), variant=1)),
    "b10": ("generic", dict(signature=("R2", "R2"), indices=(1, 0), variant=2)),
    "b12": ("generic", dict(signature=("R2", "R2"), indices=(1, 2), style="named")),
    "b20": ("generic", dict(signature=("R2", "R2"), indices=(2, 0), style="named", variant=1)),
    "b00": ("generic", dict(signature=("R2", "R2"), indices=(0, 0), variant=1)),
    "bana": ("generic", dict(signature=("R2", "R3"), indices=(1, 0), res_dim=3, analytic=True)),
    "br1r2": ("generic", dict(signature=("R1", "R2"), indices=(0, 0), style="named")),
    "br2r1": ("generic", dict(signature=("R2", "R1"), indices=(1, 1), variant=1)),
    "bse2": ("generic", dict(signature=("SE2", "R2"), indices=(0, 1), style="named", res_dim=2)),
    # More variables, open-ended hints
    "t": ("generic", dict(signature=("R1", "R2", "C"), indices=(1, 0, 0), style="named", res_dim=3)),
    "trep": ("generic", dict(signature=("R2", "R1", "R2"), indices=(0, 0, 0), res_dim=1)),
    "e1": ("generic", dict(signature=("R2",), indices=(2,), style="ellipsis")),
    "e2": ("generic", dict(signature=("R2",) * 2, indices=(0, 2), style="ellipsis", variant=1)),
    "e3": ("generic", dict(signature=("R2",) * 3, indices=(2, 1, 0), style="ellipsis", noise="full")),
    # Structured values and custom manifolds
    "s": ("generic", dict(signature=("S",), indices=(0,), res_dim=1)),
    "ss": ("generic", dict(signature=("S", "S"), indices=(1, 0), res_dim=1, variant=1)),
    "p": ("generic", dict(signature=("P",), indices=(0,), res_dim=2)),
    "d": ("generic", dict(signature=("D",), indices=(0,), res_dim=3)),
    "pd": ("generic", dict(signature=("P", "D"), indices=(1, 0), style="named", noise="fullcov")),
    "m": ("generic", dict(signature=("M",), indices=(0,), res_dim=3)),
    "c": ("generic", dict(signature=("C",), indices=(0,), res_dim=2)),
    "cc": ("generic", dict(signature=("C", "C"), indices=(0, 1), res_dim=1, style="named")),
    "y": ("generic", dict(signature=("Y",), indices=(0,), res_dim=2)),
    "yx": ("generic", dict(signature=("Y", "X"), indices=(1, 0), res_dim=3, noise="upper")),
    "x": ("generic", dict(signature=("X",), indices=(0,), res_dim=1)),
    "g": ("generic", dict(signature=("G",), indices=(0,), res_dim=2)),
    "gy": ("generic", dict(signature=("G", "Y"), indices=(1, 0), res_dim=3, variant=1)),
    # A concrete variable type, and one that is derived from it
    "base": ("generic", dict(signature=("B",), indices=(0,), res_dim=2)),
    "derived": ("generic", dict(signature=("E",), indices=(0,), res_dim=2)),
    "be": ("generic", dict(signature=("B", "E"), indices=(1, 0), res_dim=2, variant=1)),
    # Geometry
    "pse2": ("prior", dict(group="SE2", index=0)),
    "bwse2": ("between", dict(group="SE2", a=0, b=1, noise="full")),
    "bwse2b": ("between", dict(group="SE2", a=1, b=2, variant=1)),
    "pso2": ("prior", dict(group="SO2", index=0, variant=1)),
    "bwso2": ("between", dict(group="SO2", a=1, b=0)),
    "pso3": ("prior", dict(group="SO3", index=0, noise="full")),
    "bwso3": ("between", dict(group="SO3", a=0, b=1)),
    "pse3": ("prior", dict(group="SE3", index=0)),
    "bwse3": ("between", dict(group="SE3", a=0, b=1, noise="fullcov")),
}

# Parameters of one class in many forms: shapes, dtypes, scalars, containers
FORMS = ("float", "int", "array0", "array", "ints", "jax ints", "single", "bools", "2 3", "3 2", "2x3", "3x2", "1x2", "2x1",
         "dict", "dict2", "tuple", "none")
LETTERS_OF_FORMS = {f"{form}/{i}": ("parameters", dict(form=form, index=i)) for form in FORMS for i in (0, 1)}

GEOMETRY = ("pse2", "bwse2", "bwse2b", "pso2", "bwso2", "pso3", "bwso3", "pse3", "bwse3")

# Letters that interact: same groups, same leaf shapes, same variables
CORE = ("u2a", "u2b", "u2full", "u2shift", "b01", "b12", "b00", "br1r2", "c", "y", "u2r3", "e2")
INNER = ("u2b", "u2full", "b01", "b12", "c")

GROUP_SWEEP = {
    # name -> function of i giving the i-th member of one group
    "unary": lambda i: ("generic", dict(signature=("R2",), indices=(i % 4,), variant=i)),
    "chain": lambda i: ("generic", dict(signature=("R2", "R2"), indices=(i % 4, (i + 1) % 4), variant=i, style="named")),
    "mixed": lambda i: ("generic", dict(signature=("C", "R1", "Y"), indices=(i % 3, (2 * i) % 3, (i + 1) % 2), variant=i, res_dim=3)),
    "full": lambda i: ("generic", dict(signature=("R3",), indices=((5 * i) % 4,), variant=i, noise="full", res_dim=3)),
    "huber": lambda i: ("generic", dict(signature=("R2",), indices=(i % 3,), variant=i, noise="huber-full")),
    "tree": lambda i: ("generic", dict(signature=("P", "D"), indices=(i % 2, i % 3), variant=i)),
    "se2": lambda i: ("between", dict(group="SE2", a=i % 4, b=(i + 1) % 4, variant=i, noise="full")),
    "se3": lambda i: ("between", dict(group="SE3", a=i % 3, b=(i + 1) % 3, variant=i)),
}


# Groups over as many variables as factors, for large sizes
LARGE_SWEEP = {
    "far": lambda i: ("generic", dict(signature=("R2",), indices=(i,), variant=i)),
    "long": lambda i: ("generic", dict(signature=("R2", "R2"), indices=(i, i + 1), variant=i, style="named", noise="full")),
    "turn": lambda i: ("generic", dict(signature=("C", "R2"), indices=(i, (7 * i) % 11), variant=i, res_dim=3)),
    "hub": lambda i: ("generic", dict(signature=("R2", "R1"), indices=(0, i), variant=i, noise="huber-diag")),
}
LARGE_SIZES = (7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025)


def large(names, limit):
    """Groups of many factors, alone and with a second group in between."""
    for name in names:
        for n in LARGE_SIZES:
            if n <= limit:
                yield tuple(f"{name}:{i}" for i in range(n))
    for a, b in itertools.permutations(names, 2):
        for n in (9, 17, 33, 65):
            yield tuple(f"{x}:{i}" for i in range(n) for x in ((a, b) if i % 3 else (b,)))


def crowds():
    """Every kind of factor in one graph."""
    letters = list(LETTERS)
    yield tuple(letters)
    yield tuple(letters[::-1])
    yield tuple(letters[::2] + letters[1::2])
    for k in (2, 3):
        yield tuple(l for l in letters if l not in GEOMETRY) * k
    yield CORE * 9


def build_one(letter):
    from . import lab

    if letter in LETTERS:
        name, kwargs = LETTERS[letter]
    elif letter in LETTERS_OF_FORMS:
        name, kwargs = LETTERS_OF_FORMS[letter]
    else:
        sweep, i = letter.split(":")
        name, kwargs = (GROUP_SWEEP.get(sweep) or LARGE_SWEEP[sweep])(int(i))
    return getattr(lab, name)(**kwargs)


@functools.lru_cache(maxsize=None)
def factor(letter):
    return build_one(letter)


def factors(word):
    """The factors of a word. A repeated letter is the same factor object again."""
    return [factor(letter) for letter in word]


def words(alphabet, lengths):
    for n in lengths:
        yield from itertools.product(alphabet, repeat=n)


def sweeps(sizes):
    """Groups of increasing size, and two interleaved groups."""
    names = list(GROUP_SWEEP)
    for name in names:
        for n in sizes:
            yield tuple(f"{name}:{i}" for i in range(n))
    for a, b in itertools.combinations(names, 2):
        for n in (2, 3):
            yield tuple(f"{x}:{i}" for i in range(n) for x in (a, b))


def chunks(items, size):
    items = list(items)
    return [items[i : i + size] for i in range(0, len(items), size)]

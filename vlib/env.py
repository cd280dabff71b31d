"""Model of the env dictionary of a space."""
from . import gen

# A space's `env` is a dictionary of plain values and further dictionaries.  It cannot be read back, but ALTER SPACE
# may only patch a value by one of its own kind (null removes it), so every entry is observable by what is refused.
ENVK = ["a", "b", "c", "env", "A"]


def env_kind(v):
    return "dict" if isinstance(v, dict) else "bool" if v is True or v is False else "sint" if isinstance(v, int) and v < 0 else \
        "uint" if isinstance(v, int) else "float" if isinstance(v, float) else "bin" if isinstance(v, bytes) else "str"


def env_val(rng):
    return rng.choice([rng.choice([True, False]), rng.choice([0, 1, 2**63, 2**64 - 1]), -rng.choice([1, 5, 2**63]), rng.choice([0.5, -1e300]),
                       rng.choice(["", "v", gen.rstr(rng)]), rng.choice([b"", b"\x00\xff"])])


def env_gen(rng, cur, depth=0):
    """a patch, biased to be legal for the dictionary `cur`"""
    d = {}
    for k in rng.sample(ENVK, rng.choice([0, 1, 1, 2, 3])):
        have = cur.get(k)
        x = rng.random()
        if x < 0.2:
            d[k] = None
        elif x < 0.45 and depth < 3 and (have is None or isinstance(have, dict) or rng.random() < .15):
            d[k] = env_gen(rng, have if isinstance(have, dict) else {}, depth + 1)
        else:
            v = env_val(rng)
            for _ in range(30):
                if have is None or env_kind(v) == env_kind(have) or rng.random() < .03:
                    break
                v = env_val(rng)
            d[k] = v
    return d


def env_text(d, params):
    out = []
    for k, v in d.items():
        if v is None:
            out.append(k + ": null")
        elif isinstance(v, dict):
            out.append(k + ": " + env_text(v, params))
        else:
            params.append(v)
            out.append(k + ": ?")
    return "{ " + ", ".join(out) + " }"


def env_new(d):
    return {k: env_new(v) if isinstance(v, dict) else v for k, v in d.items() if v is not None}


def env_merge(cur, patch):
    """the patched dictionary, or None if the patch is not legal"""
    out = dict(cur)
    for k, v in patch.items():
        have = cur.get(k)
        if v is None:
            out.pop(k, None)
        elif isinstance(v, dict):
            if k in cur and not isinstance(have, dict):
                return None
            m = env_merge(have or {}, v)
            if m is None:
                return None
            out[k] = m
        else:
            if k in cur and env_kind(have) != env_kind(v):
                return None
            out[k] = v
    return out


def env_probes(cur, path=()):
    """one illegal patch for every entry: none of them changes anything"""
    for k, v in cur.items():
        bad = {} if not isinstance(v, dict) else 1
        d = {k: bad}
        for p in reversed(path):
            d = {p: d}
        yield d
        if isinstance(v, dict):
            yield from env_probes(v, path + (k,))
        else:
            d = {k: "x" if env_kind(v) != "str" else 1}
            for p in reversed(path):
                d = {p: d}
            yield d

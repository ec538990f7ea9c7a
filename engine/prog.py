"""The dumped program: monomorphic MIR functions, types with layouts, constant allocations."""
import gc
import json


class Prog:
    def __init__(self, path):
        gc.disable()
        d = json.load(open(path))
        gc.enable()
        gc.freeze()
        self.types = d["types"]
        self.fns = d["fns"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()} if isinstance(d["allocs"], dict) else {a[0]: a[1] for a in d["allocs"]}
        self.roots = d["roots"]
        self._leaves = {}
        self.byroot = {}
        for r in self.roots:
            f = self.fns[r]
            self.byroot[f["path"].split("vharness::", 1)[-1]] = r

    def size(self, t):
        return self.types[t]["size"]

    def is_zst(self, t):
        return self.types[t]["size"] == 0

    def scalar(self, t):
        """size in bytes if values of this type are one machine scalar, else None"""
        ty = self.types[t]
        k = ty["kind"]
        if k in ("bool", "char", "int", "uint", "float", "fnptr"):
            return ty["size"] if ty["size"] <= 8 else None
        if k in ("ptr", "ref") and ty["size"] == 8:
            return 8
        if k == "pat":
            return self.scalar(ty["base"])
        return None

    def is_ptr(self, t):
        ty = self.types[t]
        return ty["kind"] in ("ptr", "ref", "fnptr") or (ty["kind"] == "pat" and self.is_ptr(ty["base"]))

    def leaves(self, t):
        """[(off, size, isptr)] of the scalars of a type without relying on enum variants, or None"""
        r = self._leaves.get(t, 0)
        if r == 0:
            r = self._compute(t)
            self._leaves[t] = r
        return r

    def _compute(self, t):
        ty = self.types[t]
        if ty["size"] == 0:
            return []
        s = self.scalar(t)
        if s:
            return [(0, s, self.is_ptr(t))]
        k = ty["kind"]
        if k in ("ptr", "ref"):
            return [(0, 8, True), (8, 8, False)]
        if k == "pat":
            return self.leaves(ty["base"])
        if k == "array":
            e = self.leaves(ty["elem"])
            es = self.types[ty["elem"]]["size"]
            if e is None or ty["len"] is None or ty["len"] > 600:
                return None
            return [(i * es + o, s, p) for i in range(ty["len"]) for o, s, p in e]
        fs = self.fields(t)
        if fs is None:
            return None
        out = []
        for off, ft in fs:
            l = self.leaves(ft)
            if l is None:
                return None
            out += [(off + o, s, p) for o, s, p in l]
        return sorted(out)

    def fields(self, t, variant=0):
        """[(offset, type)] for structs, tuples, closures and enum variants"""
        ty = self.types[t]
        k = ty["kind"]
        if k in ("tuple", "closure"):
            return list(zip(ty["offsets"], ty.get("fields", [])))
        if k in ("struct", "union"):
            return list(zip(ty["offsets"], [f[1] for f in ty["variants"][0][2]]))
        return None

    def field_off(self, t, i, variant=None):
        ty = self.types[t]
        k = ty["kind"]
        if k == "array":
            return i * self.types[ty["elem"]]["size"]
        if variant is not None and ty.get("layout") == "multi":
            return ty["voffsets"][variant][i]
        return ty["offsets"][i]

    def field_ty(self, t, i, variant=None):
        ty = self.types[t]
        k = ty["kind"]
        if k == "array":
            return ty["elem"]
        if k in ("tuple", "closure"):
            return ty["fields"][i]
        return ty["variants"][variant or 0][2][i][1]

    def field_by_name(self, t, name, variant=0):
        """(offset, type) of a named field"""
        ty = self.types[t]
        for i, (n, ft) in enumerate(ty["variants"][variant][2]):
            if n == name:
                return self.field_off(t, i, variant if ty["kind"] == "enum" else None), ft
        raise KeyError(name)

    def fields_named(self, t):
        ty = self.types[t]
        return {n: (ty["offsets"][i], ft) for i, (n, ft) in enumerate(ty["variants"][0][2])}

    def name(self, t):
        return self.types[t]["name"]

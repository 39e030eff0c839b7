"""Assembles, for one property, the WhyML modules extracted from /repo, and proves them."""
import os, re, sys, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "specs"))
from cxxast import Unit, ExtractError
from cxx2why import Translator, FSpec, Loop, mangle

PRELUDE = """  use int.Int
  use int.Abs
  use int.EuclideanDivision
  use int.MinMax
  use cxx.Base
"""
USES = {
    "U64": "cxxint.U64", "U32": "cxxint.U32", "I64": "cxxint.I64", "I32": "cxxint.I32", "I8": "cxxint.I8", "U8": "cxxint.U8", "Conv": "cxxint.Conv",
    "U16": "cxxint.U16", "I16": "cxxint.I16", "U128": "cxxint.U128",
    "Pair": "cxx.Pair", "Vec": "cxx.Vec", "Mpz": "cxx.Mpz", "Str": "cxx.Str", "LD": "cxx.LongDouble",
}


def needed_uses(text):
    u = []
    for w in (8, 16, 32, 64, 128):
        for s in "ui":
            if re.search(r"\b(in_%s%d|%s%d_(add|sub|mul|div|rem|neg|low|shr|shl|abs)|to_%s%d|any_%s%d)\b" % ((s, w) * 4), text):
                u.append("cxxint.%s%d" % (s.upper(), w))
    if re.search(r"\b[iu](32|64)_to_[iu](32|64)\b", text):
        u.append("cxxint.Conv")
    for w in (32, 64):
        if re.search(r"\b(b[ui]%d_\w+|beq%d|any_bv%d|BV%d)\b" % (w, w, w, w), text):
            u.append("bv.BV%d as BV%d" % (w, w))
            u.append("cxxbv.B%d" % w)
    if re.search(r"\bbv(64_to_32|32_[us]_to_64)\b", text):
        u.append("cxxbv.Conv")
    if re.search(r"\b(pair|first|second)\b", text):
        u.append("cxx.Pair")
    if re.search(r"\b(vec_ok|vget|vset|vpush|vmake|seq|seq_make|any_seq|vresize|length)\b", text):
        u.append("cxx.Vec")
    if re.search(r"\b(mpz_\w+)\b", text):
        u.append("cxx.Mpz")
    if re.search(r"\b(cstr|str_of_int|stoull|mpz_of_str|cstr_\w+)\b", text):
        u.append("cxx.Str")
    if re.search(r"\b(ld_\w+)\b", text):
        u.append("cxx.LongDouble")
    if re.search(r"\b(fmap|fempty|fmem|mget|fget|any_enum|finsert)\b", text):
        u.append("cxxmap.FMap")
    if re.search(r"\b(ff|fadd|fsub|fmul|fdiv|fneg|fzero|fone|fpow|fofint)\b", text):
        u.append("ffield.Field")
    if re.search(r"\b(n_\w+mod\w*|n_preinvert_limb|preinv)\b", text):
        u.append("flint.Flint")
    if re.search(r"\bgcd\b", text):
        u.append("number.Gcd")
    if re.search(r"\bpower\b", text):
        u.append("int.Power")
    return u


def module_name(spec, alias, suffix=""):
    return "M_" + spec.mangled + suffix + ("_aliased" if alias else "")


def build_module(unit, specs, spec, alias=None, rename=None, suffix=""):
    """WhyML text of the module proving one function against its contract."""
    decl = unit.funcs.get(spec.key)
    if decl is None:
        for k in spec.keyalt:
            decl = decl or unit.funcs.get(k)
    if decl is None:
        raise ExtractError("function %s not found" % spec.key)
    cls = Translator
    if spec.opts.get("bv"):
        from bvtrans import BVTranslator as cls
    tr = cls(unit, specs, {}, ff=spec.ff, opts=dict(spec.opts))
    tr.aliases = {}
    tr.alias_ghost = {}
    if rename:
        tr.rename_locals = rename
    body = tr.function(spec, decl, alias=alias)
    vals = ""
    done = set()
    for s in tr.used:
        if s is spec or s.key in done:
            continue
        done.add(s.key)
        d = unit.funcs.get(s.key) or find_decl(unit, s.key)
        tr2 = tr
        vals += tr.val_decl(s, d)
    glob = "".join("val ref %s : %s\n" % (g, tr.wty(t)) for g, t in sorted(tr.globals.items()))
    types = tr.type_decls()
    # globals mentioned by the contracts only
    alltext = types + glob + vals + body + spec.decls
    gs = {"ffint_p": "int", "ffint_p_inv": "int"}
    gs.update(spec.opts.get("globals", {}))
    for g, gt in gs.items():
        if re.search(r"\b%s\b" % g, alltext) and g not in tr.globals:
            glob += "val ref %s : %s\n" % (g, gt)
    uses = needed_uses(types + glob + spec.decls + vals + body)
    txt = "module %s\n" % module_name(spec, alias, suffix) + PRELUDE
    for u in uses:
        txt += "  use %s\n" % u
    for u in spec.use:
        txt += "  use %s\n" % u
    txt += types + glob + spec.decls + "\n" + vals + body + "end\n"
    return txt, tr


def find_decl(unit, key):
    for n in unit.decl.values():
        if n["kind"] in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and unit.fkey(n) == key:
            return n
    raise ExtractError("no declaration of %s" % key)

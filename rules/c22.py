"""C22: a component type has one identity in the whole process, and no two types share one."""
import re
import subprocess
import os
from sa import terms as T
from sa import interp
from sa.terms import is_lin, sub, ONE, add
from sa.world import ABS
from sa.check import Broken, RES
from . import witness

LEVEL = 'proof'
MIN_OBLIGATIONS = 20
EXPLANATION = ('Abstract interpretation of the initialiser of the per-type identity variable (identity is the value kept in one '
               'static map under the full type name; fresh values are strictly increasing); constant evaluation of type-name '
               'distinctness by the front end; linkage and visibility of the identity state in the compiled module.')

EXTRA = r'''
struct S1 { int a; }; struct S12 { int a; }; namespace na { struct S1 { int a; }; namespace nb { struct S1 { int a; }; } }
namespace nb { struct S1 { int a; }; } struct Outer { struct S1 { int a; }; struct S2 { int a; }; };
template<typename... > struct Tp { int a; }; template<auto... > struct Nt { int a; };
template<typename, std::size_t> struct Arr { int a; };
enum class En { x, y };
namespace na { namespace detail { struct S1 { int a; }; } namespace impl { template<typename> struct Q { int a; }; } }
namespace nb { namespace detail { struct S1 { int a; }; } inline namespace v1 { struct S3 { int a; }; } }
struct const_S1 { int a; }; struct struct_S1 { int a; };
struct A_very_long_component_type_name_which_goes_on_for_quite_a_while_before_it_finally_comes_to_its_end_1 { int a; };
struct A_very_long_component_type_name_which_goes_on_for_quite_a_while_before_it_finally_comes_to_its_end_2 { int a; };
template<typename T> constexpr std::string_view spelled() noexcept {
    std::string_view f{ __PRETTY_FUNCTION__ };
    auto b = f.find("[T = ") + 5;
    return f.substr(b, f.size() - 1 - b);
}
template<typename T> constexpr bool whole() {
    auto n = type_name<T>();
    return n.find(spelled<T>()) != std::string_view::npos || spelled<T>().find(n) == std::string_view::npos;
}
'''
TYPES = ['S1', 'S12', 'na::S1', 'na::nb::S1', 'nb::S1', 'Outer', 'Outer::S1', 'Outer::S2', 'Tp<>', 'Tp<S1>', 'Tp<S12>', 'Tp<na::S1>',
         'Tp<int>', 'Tp<unsigned>', 'Tp<long>', 'Tp<long long>', 'Tp<int, int>', 'Tp<int, long>', 'Tp<Tp<int>>', 'Tp<Tp<Tp<int>>>', 'Nt<1>', 'Nt<2>', 'Nt<12>',
         'Nt<1, 2>', 'Nt<2, 1>', 'Arr<int, 4>', 'Arr<int, 40>', 'Arr<int[4], 4>', 'Arr<int[5], 4>', 'Tp<int*>', 'Tp<const int*>', 'Tp<int&>', 'Tp<int&&>', 'Nt<En::x>', 'Nt<En::y>', "Nt<'='>", "Nt<']'>", "Nt<';'>", "Nt<'a'>",
         'na::detail::S1', 'nb::detail::S1', 'na::impl::Q<int>', 'na::impl::Q<S1>', 'nb::S3', 'const_S1', 'struct_S1',
         'A_very_long_component_type_name_which_goes_on_for_quite_a_while_before_it_finally_comes_to_its_end_1',
         'A_very_long_component_type_name_which_goes_on_for_quite_a_while_before_it_finally_comes_to_its_end_2', 'Tp<na::detail::S1>',
         'std::string', 'std::wstring', 'std::vector<S1>', 'std::vector<na::S1>', 'entity', 'registry']


def run(ctx):
    ctx.assumptions = ['two types with the same full name in different translation units are the same type (stated in the documentation)',
                       'identities are created during static initialisation or with external synchronisation']
    names(ctx)
    linkage(ctx)
    meaning(ctx)


def names(ctx):
    cases = []
    for i, a in enumerate(TYPES):
        code = ''.join(f'static_assert(type_name<{a}>() != type_name<{b}>());\n' for b in TYPES[i + 1:])
        code += f'static_assert(!type_name<{a}>().empty() && type_name<{a}>() == type_name<{a}>());\n'
        code += f'static_assert(whole<{a}>(), "part of the type is cut off its name");\n'
        cases.append((f'name of {a} is its own', code))
    rule = 'different types have different names'
    witness.pch(ctx, EXTRA)
    ok, err = ctx.compile(''.join(c for _, c in cases), 'names')
    if ok:
        ctx.ob(rule, n=len(TYPES) * (len(TYPES) - 1) // 2)
        return
    if 'static assertion failed' not in err and 'not an integral constant' not in err and 'constant expression' not in err:
        ctx.undecide(rule, 'type names are not comparable at compile time: ' + witness.first_error(err, ctx.repo)[0])
        return
    if 'static assertion failed' in err:
        l = [x for x in err.splitlines() if 'static assertion failed' in x][0]
        ctx.fail(rule, 'include/co_ecs/type_meta.hpp', 'two different component types get the same name: ' + l.split('failed')[1][:200], key=rule)
    else:
        ctx.undecide(rule, 'type names are not constant')


PROBE = r'''
#include <co_ecs/co_ecs.hpp>
struct probe_component { int x; };
extern "C" __attribute__((visibility("default"))) unsigned long probe_entry() { return co_ecs::component_id::value<probe_component>; }
'''


def linkage(ctx):
    rule = 'identity state is one object for all binaries'
    for define, flags in (('CO_ECS_HOST', ('-fvisibility=hidden', '-fvisibility-inlines-hidden')),
                          ('CO_ECS_CLIENT', ('-fvisibility=hidden', '-fvisibility-inlines-hidden')),
                          ('CO_ECS_HOST', ()), ('CO_ECS_CLIENT', ()), (None, ())):
        src = os.path.join(ctx.scratch, 'probe.cpp')
        out = os.path.join(ctx.scratch, 'probe.ll')
        with open(src, 'w') as f:
            f.write((f'#define {define}\n' if define else '') + PROBE)
        r = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-S', '-emit-llvm', '-I' + ctx.repo + '/include', *flags, src, '-o', out],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('the library headers do not compile: ' + r.stderr[-1500:])
        ll = open(out).read()
        state, n = identity_state(ll)
        cfg = f'{define or "no macro"} {" ".join(flags)}'.strip()
        if not state:
            ctx.undecide(rule, f'{cfg}: no identity state found')
            continue
        ctx.saw('functions reached from the identity initialiser', n)
        for name, decl in sorted(state.items()):
            ctx.saw('identity state', demangle(name))
            where = 'include/co_ecs/component.hpp'
            if re.search(r'\b(internal|private)\b', decl.split(' global ')[0]):
                ctx.fail(rule, where, f'{demangle(name)} is private to one translation unit: types get different identities elsewhere',
                         key=rule + '|internal|' + demangle(name))
            elif 'thread_local' in decl:
                ctx.fail(rule, where, f'{demangle(name)} exists once per thread', key=rule + '|tls|' + demangle(name))
            elif re.search(r'\bhidden\b', decl.split(' global ')[0]) and define:
                ctx.fail(rule, where, f'{demangle(name)} is not visible to other binaries although {define} is defined ({cfg})',
                         key=rule + '|hidden|' + demangle(name))
            else:
                ctx.ob(rule)


def demangle(n):
    r = subprocess.run(['c++filt', n], capture_output=True, text=True)
    return r.stdout.strip() or n


def identity_state(ll):
    glob = {}
    for m in re.finditer(r'^@("?[\w.$]+"?) = (.*)$', ll, re.M):
        glob[m.group(1).strip('"')] = m.group(2)
    funcs = {}
    for m in re.finditer(r'^define [^@]*@("?[\w.$]+"?)\(.*?\{\n(.*?)^\}', ll, re.M | re.S):
        funcs[m.group(1).strip('"')] = m.group(2)
    refs = {f: set(re.findall(r'@"?([\w.$]+)"?', b)) for f, b in funcs.items()}
    if 'probe_entry' not in funcs:
        return {}, 0

    def closure(roots):
        seen = set()
        todo = list(roots)
        while todo:
            f = todo.pop()
            if f in seen or f not in funcs:
                continue
            seen.add(f)
            todo += [x for x in refs[f] if x in funcs]
        return seen
    start = closure(['probe_entry'])
    vals = {g for f in start for g in refs[f] if g in glob and ' global ' in glob[g] and not g.startswith('_ZGV')}
    # functions that initialise those variables
    inits = [f for f in funcs if f.startswith('__cxx_global_var_init') and
             any(re.search(r'store [^\n]*@"?' + re.escape(v) + r'"?[,\s]', funcs[f]) for v in vals)]
    reach = closure(inits) | start
    stored = {v for v in vals if any(re.search(r'store [^\n]*@"?' + re.escape(v) + r'"?[,\s]', funcs[f]) for f in inits)}
    state = {}
    for f in reach:
        for g in refs[f]:
            d = glob.get(g)
            if d is None or ' global ' not in d or g.startswith('_ZGV') or g in stored or g.startswith('llvm.') or g.startswith('_ZSt'):
                continue
            if ' external ' in ' ' + d.split('global')[0] or g.startswith('__dso'):
                continue
            state[g] = d
    return state, len(reach)


def meaning(ctx):
    P = ctx.program('ids')
    rule = 'identity is unique and kept under the full type name'
    gs = [g for g in P.globals.values() if 'init' in g and g.get('targs') and any(
        'id_probe' in P.ty(a['t'])['s'] or 'entity_tag_t' in P.ty(a['t'])['s'] for a in g['targs'] if a.get('t') is not None) and
        P.ty(g['t']).get('k') == 'int']
    if not gs:
        ctx.undecide(rule, 'no per-type identity variable found')
        return
    seen = set()
    per_type = {}
    for g in gs:
        init = g['init']
        calls = [n for n in P.walk(init) if n.get('k') == 'call' and n.get('f') in P.funcs]
        ts = {a['t'] for a in g['targs'] if a.get('t') is not None}
        typed = {c['f'] for c in calls if any(a.get('t') in ts for a in P.funcs[c['f']].get('targs', []))}
        per_type[P.ty(list(ts)[0])['s']] = frozenset(typed)
        while isinstance(init, dict) and init.get('k') != 'call' and any(isinstance(v, dict) and 'k' in v for v in init.values()):
            init = [v for v in init.values() if isinstance(v, dict) and 'k' in v][0]
        if init.get('k') != 'call' or init.get('f') not in P.funcs or 'body' not in P.funcs[init['f']]:
            ctx.undecide(rule, 'identity initialiser is not a single call')
            continue
        if init['f'] in seen:
            continue
        seen.add(init['f'])
        one(ctx, P, P.funcs[init['f']], rule)
    # two types pass through different instantiations
    fs = list(per_type.values())
    if len(fs) >= 2:
        if any(not x for x in fs) or len(set(fs)) != len(fs):
            ctx.undecide(rule, 'the type does not visibly reach the initialiser')
        else:
            ctx.ob(rule, n=len(fs))


def one(ctx, P, f, rule):
    if len(f['params']) != 1:
        ctx.undecide(rule, 'unexpected parameters of the identity function')
        return
    I = interp.Interp(P, abstract=ABS)
    where = P.where(f['id'])
    pname = f['params'][0]['n']
    for st, r in I.run(f):
        if r[0] != 'return':
            continue
        v = r[1]
        if not is_lin(v):
            v = I.read(st, v.loc) if hasattr(v, 'loc') else None
        path = [f'{w}: {T.show(p)} is {b}' for w, p, b in st.path]
        if v is None or T.tainted(v):
            ctx.undecide(rule, 'identity value unknown')
            continue
        ins = [e for e in st.ev if e.kind == 'mapinsert']
        looks = [e for e in st.ev if e.kind == 'maplookup']
        ctx.saw('paths of the identity function', (f['q'], len(st.path), bool(ins)))
        key = None
        for e in looks + ins:
            key = e.d.get('key')
            a = T.single_atom(key) if is_lin(key) else None
            if a is None or T.tainted(key):
                ctx.undecide(rule, 'key unknown')
                break
            if 'init' not in str(a) or repr(pname) not in repr(a) or a[0] not in ('whole',):
                ctx.fail(rule, where, 'the identity is not looked up by the full type name', path, key=rule + '|key')
                break
        else:
            if not looks and not ins:
                ctx.fail(rule, where, 'the identity does not come from the shared name table', path, key=rule + '|notable')
                continue
            m = (ins or looks)[0].d['map']
            cell = m + (('k', key),)
            stored = None
            for l in (cell, cell + (('f', 'second'),)):
                if l in st.mem:
                    stored = st.mem[l]
            if not ins:
                x = I.read(st, cell)
                if st.facts.eq(sub(x, v)) is True:
                    ctx.ob(rule)
                else:
                    ctx.fail(rule, where, 'a known type does not get the identity that was stored for it', path, key=rule + '|known')
                continue
            if stored is None or not is_lin(stored) or T.tainted(stored):
                ctx.undecide(rule, 'stored identity unknown')
                continue
            if st.facts.eq(sub(stored, v)) is not True:
                ctx.fail(rule, where, 'a new type gets an identity that differs from the one that is stored', path, key=rule + '|new')
                continue
            n = st.facts.norm(stored)
            a = T.single_atom(n)
            base = T.sub(n, T.const(n[1])) if n[1] and not a else n
            a = T.single_atom(base)
            if a and a[0] == 'init' and a[1][-1] == ('s', 'size') and a[1][:-1] == m:
                ctx.ob(rule)
                continue
            if a and a[0] == 'init' and a[1][0][0] == 'g':
                L = a[1]
                fin = I.read(st, L)
                d = st.facts.le(add(sub(n, fin), ONE))
                if d is True:
                    ctx.ob(rule)
                elif T.tainted(fin):
                    ctx.undecide(rule, 'next identity unknown')
                else:
                    ctx.fail(rule, where, 'the next new type can get the same identity as this one', path, key=rule + '|next')
                continue
            if T.is_const(n):
                ctx.fail(rule, where, 'every new type gets the same identity', path, key=rule + '|const')
                continue
            ctx.undecide(rule, 'origin of a new identity not recognised')

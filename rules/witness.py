"""Type-level witnesses: small translation units that must, or must not, type-check against the
library headers.  Every rejected program has an accepted twin that differs in one place only."""

PRELUDE = r'''
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
#include <co_ecs/system/named_system.hpp>
#include <functional>
#include <type_traits>
#include <string>
#include <tuple>
using namespace co_ecs;
struct A { int x; };
struct B { double y; };
struct D { int z; };
struct M { M(int); M(M&&) noexcept; M& operator=(M&&) noexcept; M(const M&) = delete; ~M(); };
struct N { N(int); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); };
'''


def positives(ctx, rule, cases, extra=''):
    """cases: [(name, code)] that must all type-check; they are first tried together"""
    def body(cs):
        return ''.join(f'namespace w_{i} {{\n{c}\n}}\n' for i, (n, c) in enumerate(cs))
    pch(ctx, extra)
    ok, err = ctx.compile(body(cases), 'pos')
    if ok:
        ctx.ob(rule, n=len(cases))
        for n, _ in cases:
            ctx.saw('accepted programs', n)
        return
    # find the culprits
    def one(c, it):
        n, code = it
        ok, err = c.compile(code, 'p_' + str(abs(hash(n))))
        c.saw('accepted programs', n)
        if ok:
            c.ob(rule)
        else:
            msg, where = first_error(err, c.repo)
            c.fail(rule, where, f'a documented use no longer compiles ({n}): {msg}', err.splitlines()[:12], key=rule + '|' + n)
    ctx.pmap(one, cases)


def pch(ctx, extra=''):
    """the library headers and the client types, parsed once"""
    if getattr(ctx, 'pch_for', None) != extra:
        ok, err = ctx.make_pch(PRELUDE + extra)
        if not ok:
            from sa.check import Broken
            raise Broken('the library headers do not type-check: ' + err[:1500])
        ctx.pch_for = extra


def negatives(ctx, rule, cases, extra=''):
    """cases: [(name, accepted twin, rejected program, where)]"""
    pch(ctx, extra)
    together = ''.join(f'namespace w_{i} {{\n{c[1]}\n}}\n' for i, c in enumerate(cases))
    twins_ok, _ = ctx.compile(together, 'twins')

    def one(c, it):
        n, good, bad, where = it
        c.saw('rejected programs', n)
        if not twins_ok:
            ok, err = c.compile(good, 'g%d' % abs(hash(n)))
            if not ok:
                # the accepted twin is judged by the positive rule of its property, not here
                c.undecide(rule, f'{n}: the accepted twin does not compile: {first_error(err, c.repo)[0]}')
                return
        ok, err = c.compile(bad, 'b%d' % abs(hash(n)))
        if ok:
            c.fail(rule, where, f'a program that must be rejected is accepted: {n}', ['program:'] + bad.strip().splitlines(),
                   key=rule + '|' + n)
        else:
            c.ob(rule)
    ctx.pmap(one, cases)


def first_error(err, repo):
    where = 'include'
    msg = 'error'
    for l in err.splitlines():
        if ': error:' in l or ': fatal error:' in l:
            msg = l.split('error:', 1)[1].strip()
            where = ':'.join(l.split(':')[:2])
            break
    for l in err.splitlines():
        if l.startswith(repo + '/include'):
            where = ':'.join(l.split(':')[:2])
            break
    return msg, where

"""C13: only protocol messages reach stdout, and nothing ends the process."""
import rules
import effects
import terms as tm
from bdd import TRUE, FALSE

RULE = ('Effect inference over every body of the server: no body calls or passes on a function that prints to standard '
        'output, reads standard input, redirects the log there, or exits or aborts the process; the one handle on '
        'standard output and the one on standard input are made in main and flow only into the LSP transport.  The '
        'build does not turn panics into aborts and main ends only when the transport ends.')

EXIT = ('std::process::exit', 'std::process::abort', 'core::intrinsics::abort', 'libc::exit', 'libc::_exit', 'libc::abort', 'libc::kill', 'libc::raise',
        'std::process::ExitCode::exit_process', 'std::alloc::handle_alloc_error', 'alloc::alloc::handle_alloc_error', 'core::panicking::panic_nounwind',
        'core::intrinsics::breakpoint', 'std::panic::set_hook', 'std::panic::resume_unwind')
PRINT = ('std::io::stdio::_print', 'std::io::_print', 'std::io::stdio::print', 'std::io::print')
STD = ('std::io::stdio::stdout', 'std::io::stdout', 'std::io::stdio::stdin', 'std::io::stdin')


def check(k):
    S = k.server()
    n = 0
    std = []
    for body, sp, p, crate, called in effects.refs(S.prog):
        n += 1
        short = '::'.join(p.split('::')[-2:])
        if p in EXIT:
            k.ob('exit:%s:%s' % (body, short), False, 'nothing ends the process', sp, p)
        elif p in PRINT:
            k.ob('print:%s' % body, False, 'nothing is printed on standard output', sp, p)
        elif p in STD or 'std::io::stdio::Stdout' in p or 'std::io::stdio::Stdin' in p or 'StdoutLock' in p or 'StdinLock' in p:
            k.ob('std:%s:%s' % (body, short), False, 'standard output and input belong to the transport', sp, p)
        elif p.startswith('tokio::io') and p.split('::')[-1] in ('stdout', 'stdin'):
            std.append((body, sp, p, called))
        elif p.split('::')[-1] in ('print_dot_graphs', 'print_dot_graph', 'from_raw_fd', 'from_raw_handle', 'print_stdout'):
            k.ob('raw:%s:%s' % (body, short), False, 'no other way to the descriptors', sp, p)
        elif 'env_logger' in p and p.split('::')[-1] in ('target', 'parse_write_style_env', 'stdout'):
            k.ob('log:%s:%s' % (body, short), False, 'the log goes to standard error', sp, p)
    for body, sp, adt, v in effects.makes(S.prog):
        if adt.split('::')[-1] == 'Target' and 'env_logger' in adt and v != 'Stderr':
            k.ob('log:%s' % body, False, 'the log goes to standard error', sp, v)
    k.floor('function references classified', n, 2000)
    mains = [x for x in S.prog.bodies if x.split('::{')[0].endswith('::main') or x.split('::{')[0] == 'main']
    for what in ('stdout', 'stdin'):
        here = [x for x in std if x[2].endswith(what)]
        k.ob('one:' + what, len(here) == 1 and here[0][0] in mains and here[0][3], 'the handle on %s is made once, in main' % what, here[0][1] if here else '', str(here[:3]))
        made = [e for e in S.events if e.kind == 'call' and e.name.startswith('tokio::io') and e.name.split('::')[-1] == what]
        ok = len(made) == 1
        k.ob('made:' + what, ok, 'its value is followed')
        if not ok:
            continue
        h = made[0].res
        users = [e for e in S.events if e is not made[0] and any(isinstance(x, tm.T) and tm.contains(x, lambda t: t is h) for x in e.args) and e.kind == 'call']
        direct = [e for e in users if any(x is h for x in e.args)]
        k.ob('flow:' + what, len(direct) == 1 and direct[0].name.startswith('tower_lsp') and direct[0].name.split('::')[-1] == 'new'
             and all(u is direct[0] or u.name.startswith('tower_lsp') and u.name.split('::')[-1] in ('serve', 'concurrency_level') or u.name in ('await',) for u in users),
             'the handle on %s is used by the transport only' % what, direct[0].span if direct else '', str([(u.name, u.span) for u in users][:6]))
    # main waits for the transport
    w = [e for e in S.events if e.ctx == (('main',),) and e.kind == 'call' and e.name == 'await']
    sv = [e for e in w if e.args[0].k == 'call' and e.args[0].a[0].startswith('serve') or tm.contains(e.args[0], lambda t: t.k == 'call' and str(t.a[0]).split('::')[-1] == 'serve')]
    k.ob('serve', len(sv) == 1 and sv[0].cond is not FALSE and not sv[0].loops, 'main serves until the transport ends', sv[0].span if sv else '', str([tm.show(e.args[0], 3) for e in w][:4]))
    k.ob('profile', profile_unwinds(), 'a panic is confined to its task by the build profile', 'Cargo.toml', 'panic = "abort"')


def profile_unwinds():
    import os
    import re
    repo = os.environ.get('SA_REPO', '/repo')
    for d in ('', 'jinja-lsp', 'jinja-lsp-queries', '.cargo'):
        for f in ('Cargo.toml', 'config.toml', 'config'):
            p = os.path.join(repo, d, f)
            if os.path.isfile(p):
                for l in open(p):
                    if re.match(r'\s*panic\s*=\s*["\']abort', l):
                        return False
    return True

"""C07: parsing is a pure, deterministic function of bytes and options (effect analysis)."""
import re
from .. import cg

BANNED = [
    (r'^(<.* as )?std::(fs|env|time|thread|net|process|os)::', 'ambient system access'),
    (r'std::(thread::local|thread::LocalKey)', 'thread-local state'),
    (r'^std::io::(stdin|stdout|stderr|_print|_eprint|Stdout|Stderr|Stdin|copy|read_to_string|BufWriter|LineWriter)', 'standard stream access'),
    (r'<std::io::(Stdout|Stderr|Stdin|StdoutLock|StderrLock|StdinLock)', 'standard stream access'),
    (r'std::sync::(atomic|Mutex|RwLock|OnceLock|LazyLock|Once|mpsc|Condvar|Barrier|poison|nonpoison|lazy_lock|once_lock)', 'shared mutable state between parses'),
    (r'std::(hash::(random::)?)?RandomState', 'random hash seed'),
    (r'^(rand|getrandom|fastrand|libc|chrono)::', 'ambient system access'),
    (r'core::fmt::rt::Argument::<.*>::new_pointer', 'formats an address'),
    (r'as std::fmt::Pointer>::fmt', 'formats an address'),
    (r'(::addr$|::expose_provenance$|std::ptr::.*addr_eq)', 'observes an address'),
    (r'(<|^)std::(backtrace|panic::Location|arch|alloc::System|intrinsics::.*caller_location)', 'ambient information'),
    (r'std::any::TypeId', 'type identity'),
]
HASH = re.compile(r'(HashMap|HashSet|hash_map|hash_set|hash::map|hash::set)')
HASH_OK = {'new', 'with_capacity', 'get', 'get_mut', 'insert', 'contains_key', 'contains', 'remove', 'entry', 'len',
           'is_empty', 'clear', 'reserve', 'default', 'extend', 'index', 'or_insert', 'or_insert_with', 'or_default', 'get_or_insert_with',
           'drop', 'replace', 'take', 'get_key_value', 'and_modify', 'or_insert_with_key', 'key', 'insert_entry'}
MUTSTATIC = re.compile(r'(Cell<|Cell\b|Atomic\w+|Mutex<|RwLock<|Once|Lazy|LocalKey<)')


def classify(name, args=()):
    full = name
    for rx, why in BANNED:
        if re.search(rx, full):
            return why
    if HASH.search(name):
        if name.split('::')[-1] not in HASH_OK:
            return 'iterates a randomly ordered collection'
    # a trait call resolved only by its type arguments
    a = ' '.join(args)
    if re.search(r'std::io::(Stdout|Stderr|Stdin)', a) and 'std::io' in name:
        return 'standard stream access'
    if HASH.search(a) and re.search(r'(IntoIterator::into_iter|Iterator::(next|map|for_each|collect|filter)|fmt::Debug)', name):
        return 'iterates a randomly ordered collection'
    if re.search(r'(hash_map|hash_set|hash::map|hash::set)::(Iter|Keys|Values|Drain|IntoIter|IntoKeys|IntoValues)', a):
        return 'iterates a randomly ordered collection'
    return None


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('Effect analysis: the call graph from every exported function of the crate (resolved callees, closures, '
                'function items, drop glue, constant-false debug branches pruned) must not reach any function with an ambient '
                'effect (files, environment, time, threads, processes, standard streams, randomness, addresses), must not iterate '
                'a hash-ordered collection, and the crate must hold no mutable or interior-mutable static.')
    rep.trusted = ['rustc MIR construction and callee resolution', 'dependencies lib-ruby-parser-ast and alloc_from_pool are effect free',
                   'the caller-supplied decoder (part of the options)']
    # the classifier must recognise one known example of each class (guards against a vacuous rule)
    for ex in ['std::fs::read', 'std::env::var', 'std::time::Instant::now', 'std::thread::spawn', 'std::io::_print', 'std::process::id',
               'std::collections::HashMap::<K, V, S, A>::iter', 'core::fmt::rt::Argument::<\'_>::new_pointer', 'std::sync::atomic::AtomicUsize::fetch_add',
               "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next", 'std::thread::LocalKey::<T>::with']:
        if classify(ex) is None:
            rep.bad('selftest:' + ex, 'effect classifier does not recognise ' + ex)
    G = cg.CallGraph(P)
    roots = [n for n, f in P.fns.items() if f.exported and f.kind == 'fn']
    if not any(n.endswith('Parser::do_parse') for n in roots) or not any(n.endswith('Parser::new') for n in roots):
        rep.anchor('exported Parser::new / Parser::do_parse', None)
    par = G.reach(roots)
    inside = [n for n in par if n in P.fns]
    rep.floor('functions_analysed', len(inside), 700)
    sites = 0
    for n in sorted(inside):
        f = P.fns[n]
        for m, c, loc in G.out(n):
            if m in P.fns:
                continue
            sites += 1
            why = classify(m, (c or {}).get('args', ()))
            if why:
                rep.bad('%s -> %s' % (n, m), '%s: %s calls %s (%s); reached via %s' % (loc, n, m, why, G.path(par, n)))
            else:
                rep.ok('%s -> %s' % (n, m))
        live = cg.live_blocks(P, f)
        for i in live:
            for s in f.blocks[i]['s']:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'cast' and 'Expose' in r[1]:
                    rep.bad('%s: address cast' % n, '%s: %s turns an address into a number' % (s[3] if len(s) > 3 else f.span, n))
                if r[0] == 'bin' and r[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset'):
                    for o in (r[2], r[3]):
                        if o[0] in ('c', 'm') and len(o[1]) == 1 and re.match(r'\*(const|mut) ', f.locals[o[1][0]]):
                            rep.bad('%s: address comparison' % n, '%s compares addresses' % n)
                ks = []
                cg.consts_in(r, ks)
                for k in ks:
                    if 'static' in k and MUTSTATIC.search(k.get('ty', '')):
                        rep.bad('%s: static %s' % (n, k['static']), '%s uses the mutable static %s: %s' % (n, k['static'], k.get('ty')))
                if r[0] == 'tls' or 'ThreadLocal' in str(r[0]):
                    rep.bad('%s: thread local' % n, n + ' reads thread-local state')
    for s in P.statics:
        d = str(s)
        mut = isinstance(s, dict) and s.get('mut')
        ty = s.get('ty', '') if isinstance(s, dict) else d
        if mut or s.get('tls') or not s.get('freeze', True) or MUTSTATIC.search(ty):
            rep.bad('static %s' % (s.get('name') if isinstance(s, dict) else d), 'mutable static: %s' % d)
        else:
            rep.ok('static %s' % d[:80])
    rep.floor('call_sites_to_libraries', sites, 1500)
    rep.count('exported_entry_points', len(roots))

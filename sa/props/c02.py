"""stock: the payment made for an invoice"""
from rules import *
from linear import *
from props.s03 import propagate
import itertools

RULE = '''MIR of the composition of a payment; the builder steps, the lookup of the state assigned to outputs and the stash
being summarised. Amounts are kept as affine forms over the sums added up in the loop over the spent state (told apart by the
place which adds and by the closing method of the output under which it is reached) and over the invoiced amount; the
comparisons of amounts are kept apart to the end. On every path to the next stage: what is paid in each of the two transitions
equals what the outputs of its closing method hold, what goes to the beneficiary of the invoice equals the invoiced amount, and all the
rest goes to a seal of the owner. Every assigned state is spent by the transition of the closing method of its output, together
with that output; state of other types and other tokens is reassigned to the owner in that transition. The token
is paid in the transition which spends it. The refusals are tested before success.'''
FLOOR = 60
BS = ['TransitionBuilder::add_*', 'TransitionBuilder::set_*']
ST = BS + ['TransitionBuilder::*', 'Stash::*', 'State::*', 'Index::*', 'TransitionInfo::new', 'TransitionDichotomy::*', 'Dichotomy::*',
           'Batch::*', 'Stock::contract_assignments_for', 'Stock::contracts_assigning', 'Stock::transition_builder',
           'Stock::blank_builder', 'Supplement::*', 'RgbInvoice::*', 'XChainNet::*', 'ChainNet::*', 'PersistedState::*']
MB = ['Stock::transition_builder', 'Stock::blank_builder']
CID = '$1.contract@Some'
CA = 'Stock::contract_assignments_for($0, $1.contract@Some, *)@Ok'
OUT = 'each(%s).0' % CA
LIST = 'each(%s).1' % CA
OP, STATE = 'each(%s).0' % LIST, 'each(%s).1' % LIST
ROLE = ['($3 == TxoSeal::method(%s))' % OUT, '(TxoSeal::method(%s) == $3)' % OUT]
NOROLE = ['!' + r for r in ROLE]
AMT = ('$1.owned_state@Amount', '$1.owned_state@Amount.0')


def tagged(x):
    return all(y.op == 'field' and y.a[1] == '0' and y.a[0].op == 'elem' for y in alts(x)) and 'contract_assignments_for' in show(x)


def amounts(l):
    if l[0] == 'b' and l[1].op in ('lt', 'eq'):
        s = show(l[1])
        return 'sum#' in s or AMT[0] in s or 'Amount(' in s
    return l[0] == 'is' and show(l[1]) == '$1.owned_state'


def root(t):
    while t.op == 'upd':
        t = t.a[0]
    return t


def payment(p, **kw):
    return G(p, p.find('compose_deterministic', 'Stock'), ST, fresh=MB, fluent=BS, tag=tagged, caps=(200, 400), **kw)


def roles(g, starts, hit, both):
    """closing methods (main: that of the wallet; alt: the other) of the outputs for which an event is reached"""
    out = set()
    for r, cut in both.items():
        if g.reach(starts, lambda n, e: e is not None and hit(e), None, lambda l: lm(l, cut)):
            out.add(r)
    return out


class Seals:
    def __init__(self, at):
        l1 = ['RgbInvoice::layer1($1)', 'ChainNet::layer1(XChainNet::chain_network($1.beneficiary))', 'XChainNet::layer1($1.beneficiary)',
              'ChainNet::layer1(RgbInvoice::chain_network($1))']
        ben = ['XChainNet::into_inner($1.beneficiary)', 'XChainNet::as_inner($1.beneficiary)', '*inner($1.beneficiary)']
        self.ben = ben
        self.blind = ['BuilderSeal::Concealed(XChain::with(%s, %s@BlindedSeal))' % (a, b) for a in l1 for b in ben]
        self.vout = ['BuilderSeal::Revealed(XChain::with(%s, BlindSeal::with_blinded_vout(%s@WitnessVout.method, $4@Some, call($8, *))))' % (a, b) for a in l1 for b in ben]
        self.payee = self.blind + self.vout
        self.l1 = l1

    def owner(self, cid, ty):
        """a seal of the owner for the type, at the output the allocator gives for that contract and type"""
        return ['BuilderSeal::Revealed(XChain::with(%s, BlindSeal::with_blinded_vout($3, call($6, %s, %s, *)@Some, call($8, *))))' % (a, cid, t) for a in self.l1 for t in aslist(ty)]


def check(ck):
    p = ck.p
    S = 'compose'
    h = ck.graph(payment(p, until=['Stock::contracts_assigning'], sums=True, split=amounts))
    if not h.events('TransitionBuilder::add_fungible_state_raw'):
        h = ck.graph(payment(p, sums=True, split=amounts, max_nodes=200000))
    end = {n.id for n in h.okrets()}
    done = lambda n, e: e is not None and e.name == 'Stock::contracts_assigning' or e is None and n.id in end
    fin = [n for n in h.nodes if any(done(n, e) for e in n.events) or n.id in end]
    ck.ob(S, len(fin) > 1, 'the composition can succeed')
    # what is read
    for e in h.events('Stock::contract_assignments_for'):
        ck.ob(S, m(e.args[2], ['empty<>+<add(conv:*(each($2)))>', 'empty<>+<add(each($2))>', '$2']), 'the state is that of all given outputs: %s' % cutstr(show(e.args[2])), loc=e.loc)
    ck.hold(S, h.must(E('Stock::contract_assignments_for', '$0', CID), target=done), 'the state of the invoiced contract is looked up')
    tb = h.events('Stock::transition_builder')
    for e in tb:
        ck.ob(S, ev_args(e, ['$0', CID, '$1.iface@Some', '$1.operation']), 'transitions are those of the invoice: %s' % cutstr(', '.join(map(show, e.args))), loc=e.loc)
    # the assignment type
    ats = {show(t.a[1]) for n in h.nodes for _, ls in n.succ for l in ls if l[0] == 'is' and l[2] == 'Some' and pat('TransitionBuilder::assignments_type(*').match(show(l[1])) for t in [mk('x', 0, l[1])]}
    names = ['{$1.assignment@Some | TransitionBuilder::default_assignment(*)@Ok}', '$1.assignment@Some', 'TransitionBuilder::default_assignment(*)@Ok']
    at = ['TransitionBuilder::assignments_type(Stock::transition_builder#*, %s)@Some' % a for a in names]
    ck.ob(S, bool(ats) and all(any(pat(a[:-5]).match(x) for a in at) for x in ats), 'the assignment type is that of the invoice or the default one: %s' % cutstr(str(sorted(ats)), 300))
    ck.hold(S, h.only_if(E('TransitionBuilder::default_assignment'), ['$1.assignment is None']), 'the default type is used only if the invoice names none')
    same = ['(%s == %s.ty)' % (a, OP) for a in at] + ['(%s.ty == %s)' % (OP, a) for a in at]
    ty = at + [OP + '.ty']
    sl = Seals(at)
    # closing methods
    cst = [t for _, t, _ in h.edges(['next ' + CA])]
    ck.ob(S, bool(cst), 'the assigned state is visited')
    heads = {n.id for n, _, _ in h.edges(['next ' + CA, 'end ' + CA])}
    again = ['next ' + CA, 'end ' + CA]
    both = {'main': NOROLE + again, 'alt': ROLE + again}
    for r in ROLE[:1]:
        ck.ob(S, bool(h.edges(ROLE)) and bool(h.edges(NOROLE)), 'outputs are told apart by their closing method')
    builders = {}
    for e in h.events('TransitionBuilder::add_input'):
        builders.setdefault(show(root(e.args[0])), []).append(e)
    role = {}
    for b, es in builders.items():
        ck.ob(S, pat('Stock::transition_builder#*@Ok').match(b) is not None, 'inputs are added to a transition of the invoice: %s' % b)
        for e in es:
            ck.ob(S, ev_args(e, [None, OP, STATE]), 'an input is the spent state itself: %s' % cutstr(', '.join(map(show, e.args[1:]))), loc=e.loc)
        r = roles(h, cst, lambda e: e.name == 'TransitionBuilder::add_input' and show(root(e.args[0])) == b, both)
        ck.ob(S, len(r) == 1, 'a transition spends outputs of one closing method: %s' % sorted(r))
        role[b] = min(r) if len(r) == 1 else None
    ck.ob(S, sorted(map(str, role.values())) == ['alt', 'main'], 'each closing method has its own transition')
    inp = E('TransitionBuilder::add_input', None, OP, STATE)
    ck.hold(S, h.foreach(LIST, inp, complete=False, target=done), 'all assigned state of an output is spent')
    ck.hold(S, h.foreach(CA, None, target=done), 'all given outputs are visited')
    lists = [n for n, _, _ in h.edges(['next ' + LIST, 'end ' + LIST])]
    ck.hold(S, h.foreach(CA, None, ['end ' + LIST, 'next ' + LIST], complete=False, target=done), 'all assigned state is visited')
    w = h.reach(cst, lambda n, e: e is None and n.id in heads or done(n, e), None, lambda l: lm(l, ['end ' + LIST]))
    ck.ob(S, w is None, 'the state of every output is visited to the end', w and h.describe(w))
    # outputs listed with the transitions
    outs = {}
    for e in h.events('add', args=[None, OUT]):
        outs.setdefault(h.a.site('add', e.node), []).append(e)
    orole = {}
    for k, es in outs.items():
        r = roles(h, cst, lambda e: e in es, both)
        orole[k] = r
    for r in ('main', 'alt'):
        here = [e for k, es in outs.items() if r in orole[k] for e in es]
        w = h.reach(cst, lambda n, e: e is None and n.id in heads or done(n, e), lambda e: e in here, lambda l: lm(l, both[r][:2]))
        ck.ob(S, w is None and bool(here), 'each output of the %s closing method is listed as closed' % r, w and h.describe(w))
    # the sums
    tags = sorted({e.name for e in h.events('sum#*')})
    val = [STATE + '@Amount', STATE + '@Amount.0', STATE + '@Amount.0.0']
    cls = {}
    lst = [t for _, t, _ in h.edges(['next ' + LIST])]
    lheads = {n.id for n, _, _ in h.edges(['next ' + LIST, 'end ' + LIST])}
    for k in tags:
        es = h.events(k)
        if not all(m(e.args[1], val) for e in es):
            continue
        r = roles(h, cst, lambda e: e.name == k, both)
        for x in sorted(r):
            w = h.reach(cst, lambda n, e: False, None, None)
            # any amount of the type of the invoice under an output of that closing method
            amt = [t for n, t, ls in h.edges([STATE + ' is Amount'])]
            bad = h.reach(lst, lambda n, e: e is None and n.id in lheads or done(n, e), E(k), lambda l: lm(l, both[x][:2] + ['!' + s for s in same] + [STATE + ' is Data', STATE + ' isnot Amount*', STATE + ' isnot *|Amount*']))
            ck.ob(S, bad is None, 'each amount under %s outputs is added up' % x, bad and h.describe(bad))
        w = h.reach(lst, lambda n, e: e is not None and e.name == k, None, lambda l: lm(l, same + again + ['next ' + LIST]))
        ck.ob(S, w is None, 'only amounts of the invoiced type are added up', w and h.describe(w))
        cls[k] = r
    ck.ob(S, {x for r in cls.values() for x in r} == {'main', 'alt'}, 'amounts of both closing methods are added up: %s' % sorted((k, sorted(v)) for k, v in cls.items()))

    def atom(t):
        if show(t) in AMT:
            return {'amt': 1}
        if t.op == 'upd' and all(x[0] in cls or x[0].startswith('sum#') for x in t.a[1]):
            base = forms_of(t.a[0], atom)
            if len(base) != 1 or base[0][1]:
                raise Unknown(show(t))
            r = base[0][0]
            for x in t.a[1]:
                if x[0] in cls:
                    for c in cls[x[0]]:
                        r = add(r, {c: 1})
                else:
                    f = forms_of(x[1], atom)
                    if len(f) != 1 or f[0][1]:
                        raise Unknown(show(t))
                    r = add(r, f[0][0])
            return r
        return None
    NM = ['amt', 'main', 'alt']
    PAY = ['TransitionBuilder::add_fungible_state_raw', 'TransitionBuilder::add_fungible_state', 'TransitionBuilder::add_owned_state_raw', 'TransitionBuilder::add_data_raw',
           'TransitionBuilder::add_*']
    preds = {}
    for n in h.nodes:
        for t, _ in n.succ:
            preds.setdefault(t.id, []).append(n)
    fung = {}
    for e in h.events('TransitionBuilder::add_fungible_state_raw'):
        fung.setdefault(e.node.id, []).append(e)
    isamt = lambda n: any(lit(l) == '$1.owned_state is Amount' for l in n.hist)
    paths = 0
    for n in fin:
        if not isamt(n):
            continue
        anc, st = {n.id}, [n]
        while st:
            x = st.pop()
            for y in preds.get(x.id, ()):
                if y.id not in anc:
                    anc.add(y.id)
                    st.append(y)
        conds = [facts_of(l, atom) for l in n.hist]
        groups = {}
        for i in anc & set(fung):
            for e in fung[i]:
                groups.setdefault((str(e.loc), show(root(e.args[0])), show(e.args[3])), []).append(e)
        pays, bad = [], False
        for (_, b, a), es in sorted(groups.items(), key=str):
            loc = es[0].loc
            w = h.reach([h.a.entry], lambda z, e: e is None and z is n or z is n and e is not None and done(z, e), lambda e: e in es)
            ck.ob(S, w is None, 'a payment does not depend on more than the amounts', w and h.describe(w))
            who = set()
            for e in es:
                ck.ob(S, m(e.args[1], at), 'what is paid is of the type of the invoice: %s' % cutstr(show(e.args[1])), loc=loc)
                for s in alts(e.args[2]):
                    who.add('payee' if m(s, sl.payee) else 'owner' if m(s, sl.owner(CID, at)) else '?' + cutstr(show(s), 300))
            ck.ob(S, len(who) == 1 and min(who) in ('payee', 'owner'), 'each payment goes to the beneficiary or back to the owner: %s' % sorted(who), loc=loc)
            ck.ob(S, b in role, 'payments are made in a transition which spends: %s' % cutstr(b), loc=loc)
            try:
                fs = forms_of(es[0].args[3], atom)
            except Unknown as u:
                ck.ob(S, False, 'the amount paid is known: %s' % cutstr(str(u), 300), loc=loc)
                bad = True
                continue
            pays.append((role.get(b), min(who), fs, loc))
        if bad:
            continue
        alt = [c for c in conds if c]
        for combo in itertools.product(*alt):
            facts = [f for c in combo for f in c]
            for vals in itertools.product(*[x[2] for x in pays]):
                fc = facts + [f for _, need in vals for f in need]
                # an amount which is paid is not negative
                if not possible(fc, NM):
                    continue
                paths += 1
                tot = {'main': {}, 'alt': {}, 'payee': {}}
                for (r, who, _, _), (v, _) in zip(pays, vals):
                    if r:
                        tot[r] = add(tot[r], v)
                    if who == 'payee':
                        tot['payee'] = add(tot['payee'], v)
                for k, want, what in (('main', {'main': 1}, 'the transition pays out what its outputs hold'), ('alt', {'alt': 1}, 'the transition of the other closing method pays out what its outputs hold'),
                                      ('payee', {'amt': 1}, 'the beneficiary gets the invoiced amount')):
                    d = add(tot[k], want, -1)
                    ok = le0(d, fc, NM) and le0(add({}, d, -1), fc, NM)
                    ck.ob(S, ok, '%s' % what, None if ok else ['when ' + cutstr(lit(l)) for l in sorted(n.hist, key=lit)] + ['paid: %s' % sorted(tot[k].items()), 'expected: %s' % sorted(want.items())])
    ck.ob(S, paths >= 4, 'the payments of %d cases are compared' % paths)
    # state of other types and other tokens
    keep = E('TransitionBuilder::add_owned_state_raw', None, OP + '.ty', sl.owner(CID, OP + '.ty') + sl.owner(CID, at), [STATE, STATE + '+<PersistedState::update_blinding(call($7, *))>'])
    for e in h.events('TransitionBuilder::add_owned_state_raw'):
        ck.ob(S, keep(e), 'state which is not paid stays what it is and goes to the owner: %s' % cutstr(', '.join(map(show, e.args[1:])), 400), loc=e.loc)
        b = show(root(e.args[0]))
        ck.ob(S, b in role, 'it is reassigned in a transition which spends', loc=e.loc)
    for b, r in role.items():
        rr = roles(h, cst, lambda e: e.name == 'TransitionBuilder::add_owned_state_raw' and show(root(e.args[0])) == b, both)
        ck.ob(S, rr <= {r}, 'state is reassigned by the transition which spends it')
    lend = lambda n, e: e is None and n.id in lheads or done(n, e)
    w = h.reach(lst, lend, keep, lambda l: lm(l, same))
    ck.ob(S, w is None and bool(h.edges(same)), 'state of other types is reassigned to the owner', w and h.describe(w))
    tok = ['(*$1.owned_state@Data* == %s@Data*)' % STATE, '(%s@Data* == *$1.owned_state@Data*)' % STATE]
    notamt = [STATE + ' is Amount', STATE + ' isnot *Data*']
    w = h.reach(lst, lend, keep, lambda l: lm(l, tok + notamt))
    ck.ob(S, w is None and bool(h.edges(tok)), 'tokens which are not asked for are reassigned to the owner', w and h.describe(w))
    w = h.reach([t for _, t, _ in h.edges(tok)], lambda n, e: e is None and any(lm(l, tok) for _, ls in n.succ for l in ls), None, None)
    ck.ob(S, w is None, 'one token is paid, an equal one stays with the owner', w and h.describe(w))
    # the token
    dpay = h.events('TransitionBuilder::add_data_raw')
    ck.ob(S, bool(dpay), 'a token can be paid')
    for e in dpay:
        ck.ob(S, m(e.args[1], at), 'the token is of the type of the invoice', loc=e.loc)
        ck.ob(S, all(m(s, sl.payee) for s in alts(e.args[2])), 'the token goes to the beneficiary: %s' % cutstr(show(e.args[2]), 300), loc=e.loc)
        ck.ob(S, m(e.args[3], ['$1.owned_state@Data@RGB21', '*$1.owned_state@Data*']), 'the token is the invoiced one: %s' % cutstr(show(e.args[3])), loc=e.loc)
        ck.ob(S, show(root(e.args[0])) in role, 'the token is paid in a transition which spends', loc=e.loc)
    dset = [e for e in dpay]
    w = h.reach([t for _, t, _ in h.edges(['$1.owned_state is Data'])], done, lambda e: e in dset, lambda l: lm(l, ['$1.owned_state is Amount']))
    ck.ob(S, w is None and bool(h.edges(['$1.owned_state is Data'])), 'the token is paid', w and h.describe(w))
    p2 = E('TransitionBuilder::add_data_raw')
    ck.hold(S, h.only_if(p2, tok), 'a token is paid only if it was spent')
    nodes2 = [t for n in h.nodes if any(p2(e) for e in n.events) for t, _ in n.succ]
    w = h.reach(nodes2, lambda n, e: e is not None and p2(e))
    ck.ob(S, w is None, 'a token is paid once', w and h.describe(w))
    for b, r in role.items():
        mine = lambda e: p2(e) and show(root(e.args[0])) == b
        lits = ROLE if r == 'main' else NOROLE
        after = [t for _, t, _ in h.edges(['end ' + CA])]
        w = h.reach(after, lambda n, e: e is not None and mine(e), None, lambda l: lm(l, lits))
        if w:
            # the place where it was found is remembered by a flag: follow it from the place where the token was found
            found = [t for n, t, _ in h.edges(tok) if any(lm(f, both[r][:2]) for f in n.facts | t.facts)]
            w = h.reach(found, lambda n, e: e is not None and mine(e)) if found else w
        ck.ob(S, w is None, 'the token is paid in the transition which spends it', w and h.describe(w))
    # refusals
    for what, lits in (('an expired invoice', ['$1.expiry is None', '!($1.expiry@Some < *)', '(* < $1.expiry@Some)']), ('an invoice without contract', ['$1.contract is Some']),
                       ('an invoice without interface', ['$1.iface is Some']), ('an unknown assignment', [a[:-5] + ' is Some' for a in at]),
                       ('an output for a blinded seal', [b + ' is WitnessVout' for b in sl.ben] + ['$4 is None']), ('a missing output for an address', [b + ' is BlindedSeal' for b in sl.ben] + ['$4 is Some']),
                       ('an invoice for other state', ['$1.owned_state is Amount', '$1.owned_state is Data'])):
        ck.hold(S, h.must(None, lits, target=done), '%s is refused' % what)
    for e in h.events('DateTime::timestamp'):
        ck.ob(S, m(e.args[0], 'Utc::now()'), 'the expiry is compared with the time now', loc=e.loc)
    tail(ck, p, S, role)


def tail(ck, p, S, _):
    """what becomes of the two transitions"""
    hi = lambda l: l[0] == 'b' and pat('TransitionBuilder::has_inputs(Stock::transition_builder#*').match(show(l[1])) is not None
    g = ck.graph(payment(p, split=hi, sums=True, max_nodes=60000))
    cst = [t for _, t, _ in g.edges(['next ' + CA])]
    again = ['next ' + CA, 'end ' + CA]
    both = {'main': NOROLE + again, 'alt': ROLE + again}
    brole, orole = {}, {}
    for e in g.events('TransitionBuilder::add_input'):
        b = show(root(e.args[0]))
        if pat('Stock::transition_builder#*@Ok').match(b) and b not in brole:
            brole[b] = roles(g, cst, lambda e: e.name == 'TransitionBuilder::add_input' and show(root(e.args[0])) == b, both)
    for e in g.events('add', args=[None, OUT]):
        k = g.a.site('add', e.node)
        if k not in orole:
            orole[k] = roles(g, cst, lambda x: x.name == 'add' and g.a.site('add', x.node) == k and m(x.args[1], OUT), both)
    infos = [e for e in g.events('TransitionInfo::new') if 'transition_builder#' in show(e.args[0])]
    done = {}
    for e in infos:
        t = e.args[0]
        ok = t.op == 'pay' or 'complete_transition' in show(t)
        b = [b for b in brole if pat('TransitionBuilder::complete_transition(%s*' % b).match(show(t)) or pat('TransitionBuilder::complete_transition(%s*' % b).match(show(t))]
        ck.ob(S, ok and len(b) == 1, 'a transition is completed as it was composed: %s' % cutstr(show(t), 200), loc=e.loc)
        if len(b) != 1:
            continue
        done.setdefault(b[0], []).append(e)
        ks = {x[0] for u in [e.args[1]] if u.op == 'upd' for x in u.a[1]}
        ck.ob(S, bool(ks) and all(orole.get(k) == brole[b[0]] for k in ks), 'a transition is listed with the outputs it spends: %s' % sorted(ks), loc=e.loc)
    for b in brole:
        es = done.get(b, [])
        ck.ob(S, bool(es), 'the transition can be completed')
        has = ['TransitionBuilder::has_inputs(%s*' % b]
        w = g.after(has, lambda e: e in es)
        ck.hold(S, w, 'a transition which spends is completed')
        ck.ob(S, bool(g.edges(has)), 'it is tested whether the transition spends')
        ck.hold(S, g.ret_only_if('Result::Ok(*', has + ['TransitionBuilder::has_inputs(%s*' % x for x in brole]), 'a payment which spends nothing is refused')
        infs = ['TransitionInfo::new(TransitionBuilder::complete_transition(%s*' % b]
        ids = {n.id for n, r in g.rets() if mays(r, 'Result::Ok(*') and not any('TransitionInfo::new(TransitionBuilder::complete_transition(%s' % b in show(x) for x in okval(r))}
        w = g.reach([t for _, t, _ in g.edges(has)], lambda n, e: e is None and n.id in ids)
        ck.ob(S, w is None, 'a transition which spends is in the batch', w and g.describe(w))
    propagate(ck, S, g, ['Stock::contract_assignments_for', 'TransitionInfo::new', 'TransitionBuilder::complete_transition'])
    for e in g.events('TransitionBuilder::add_*'):
        pass
    # the priority
    ck.hold(S, g.must(E('Batch::set_priority', None, '$5')), 'the batch gets the priority asked for')
    for n, r in g.rets():
        for x in okval(r):
            b = x
            while b.op == 'upd':
                b = b.a[0]
            mn = field(b, 'main')
            ck.ob(S, b.op == 'agg' and m(mn, ['TransitionDichotomy::with(*', 'Dichotomy::with(*', 'Dichotomy{*']), 'the batch is made of the transitions: %s' % cutstr(show(b), 200))

"""operation builders: what is given to a builder"""
from rules import *

RULE = '''MIR of every method of the contract and transition builders which is given state, helpers inlined down to the lookups of
the interface implementation, the schema and the type system. The builder returned is the given one with exactly the given item
(seal with its state, global or metadata value, input with its state, asset tag) added under the type of the given name, or
the given type, in the collection of the kind which the schema defines for it; every other part is the same. An item is
never put in place of another one: a state only if the seal has none of that type, a random tag only if there is none, a given tag only
if no state of the type was made yet. State with
a tag other than the one of the contract, global and metadata values not matching their type and seals of a blockchain not used by the
contract are refused, and failures are returned.'''
FLOOR = 262
ST = ['IfaceImpl::*', 'Schema::*', 'TypeSystem::*', 'AssetTag::*', 'RevealedValue::*', 'RevealedData::*', 'RevealedAttach::*', 'XChain::layer1']
B = '$0.builder.'
OWNED = ('rights', 'fungible', 'data', 'attachments')
ATY = 'IfaceImpl::assignments_type($0.builder.iimpl, $1)@Some'
DFT = 'IfaceImpl::assignments_type($0.builder.iimpl, get($0.builder.iface.transitions, IfaceImpl::transition_name($0.builder.iimpl, $0.transition_type)@Some)@Some.default_assignment@Some)@Some'
SER = 'StrictSerialize::to_strict_serialized(%s)@Ok'
SCH = 'get($0.builder.schema.owned_types, %s)@Some'
KIND = {'rights': ['(OwnedStateSchema::Declarative == %s)', '%s is Declarative'],
        'fungible': ['(OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit) == %s)', '%s is Fungible'],
        'data': ['%s is Structured'], 'attachments': ['%s is Attachment']}


def same(ck, site, p, v, changed):
    """every part of the builder except the changed ones is the one given"""
    top = p.adts[p.adt(site.split('::')[0])]['variants'][0]['fields']
    inner = p.adts[p.adt('OperationBuilder')]['variants'][0]['fields']
    bad = [f[0] for f in top if f[0] not in changed and f[0] != 'builder' and show(field(v, f[0])) != '$0.' + f[0]]
    b = field(v, 'builder')
    bad += [f[0] for f in inner if f[0] not in changed and show(field(b, f[0])) != B + f[0]]
    ck.ob(site, not bad, 'nothing else of the builder is changed: %s' % bad)


def owned(ck, site, g, coll, ty, item, tags=False):
    p = ck.p
    pl = B + coll
    known = 'get(%s, %s)' % (pl, ty)
    item = aslist(item)
    seal = item[0].split(',')[0].lstrip('(') if coll != 'rights' else item[0]
    puts = []
    for e in g.events('add'):
        b, x = e.args[0], e.args[1]
        if show(b) == pl:
            k, v = field(x, '0'), field(x, '1')
            its, base = [], v
            while base.op == 'upd':
                its += [y[1] for y in base.a[1] if y[0] == 'add']
                base = base.a[0]
            ck.ob(site, show(k) == ty, 'the state is put under its own type: %s' % cutstr(show(k)), loc=e.loc)
            ck.ob(site, len(its) == 1 and m(its[0], item), 'it is put with the given seal: %s' % cutstr(show(v), 300), loc=e.loc)
            if show(base).startswith(('empty<', 'default')):
                ck.hold(site, g.only_if(lambda z: z is e, [known + ' is None', '!contains(%s, %s)' % (pl, ty)]), 'state given before is kept', loc=e.loc)
            else:
                ck.ob(site, show(base) == known + '@Some', 'state given before is kept: %s' % cutstr(show(base)), loc=e.loc)
                if coll != 'rights':
                    ck.hold(site, g.only_if(lambda z: z is e, ['get(%s@Some, %s) is None' % (known, seal), '!contains(%s@Some, %s)' % (known, seal)]), 'a seal holds one state of a type', loc=e.loc)
            puts.append(e)
        elif any(show(y) == known + '@Some' for y in alts(b)) or (show(b).startswith('get(') and pl in show(b)):
            ok = all(show(y) == known + '@Some' or show(y).startswith(('empty<', 'default')) for y in alts(b))
            ck.ob(site, ok, 'the state is put under its own type: %s' % cutstr(show(b)), loc=e.loc)
            ck.ob(site, m(x, item), 'it is put with the given seal: %s' % cutstr(show(x), 300), loc=e.loc)
            if coll != 'rights':
                ck.hold(site, g.only_if(lambda z: z is e, ['get(*, %s) is None' % seal, '!contains(*, %s)' % seal]), 'a seal holds one state of a type', loc=e.loc)
            puts.append(e)
        elif m(x, item):
            pass
    ck.ob(site, bool(puts), 'the state is put into the builder')
    ck.hold(site, g.must(lambda e: e in puts), 'success means the state is in the builder')
    kind = [k % (SCH % ty) for k in KIND[coll]]
    ck.hold(site, g.must(None, kind), 'only state of the kind defined by the schema is taken')
    ok = 0
    for n, r in g.rets():
        for v in okval(r):
            ok += 1
            same(ck, site, p, v, (coll, 'asset_tags') if tags else (coll,))
            c = show(field(field(v, 'builder'), coll))
            ck.ob(site, c.startswith(pl + '+<') or c.startswith(pl + '['), 'what was given before is kept: %s' % cutstr(c))
    ck.ob(site, ok > 0, 'the builder is returned')
    for e in g.events(['remove', 'clear', 'retain', 'pop']):
        ck.ob(site, False, 'nothing is taken away', loc=e.loc)
    w = g.reach([t for _, t, _ in g.edges(['Confined::insert(%s* is Err' % pl, 'Confined::insert(%s@Some* is Err' % known, 'Confined::push(* is Err'])], g._okt())
    ck.ob(site, w is None, 'a failure is returned', w and g.describe(w))


def tagof(ty):
    return ['get($0.builder.asset_tags, %s)@Some' % ty]


def check(ck):
    p = ck.p
    for who in ('TransitionBuilder', 'ContractBuilder'):
        con = who == 'ContractBuilder'

        def graph(name, **kw):
            return ck.graph(G(p, p.find(name, who), ST, **kw))

        def layers(site, g, seal='conv:BuilderSeal($2)'):
            if not con:
                return
            l1 = ['XChain::layer1(%s@*' % seal, '{XChain::layer1(%s@*' % seal]
            ck.hold(site, g.must(None, [x + ' is Bitcoin' for x in l1] + ['contains($0.alt_layers1, AltLayer1::Liquid)']), 'the seal is on a blockchain used by the contract')
        S = who + '::%s'
        for name, coll, ty, item in (
                ('add_rights', 'rights', ATY, 'conv:BuilderSeal($2)'),
                ('add_fungible_state', 'fungible', ATY, '(conv:BuilderSeal($2), RevealedValue::new_random_blinding(conv:Amount($3), %s))'),
                ('add_fungible_state_det', 'fungible', ATY, '(conv:BuilderSeal($2), RevealedValue::with_blinding(conv:Amount($3), $4, %s))'),
                ('add_fungible_state_raw', 'fungible', '$1', '(conv:BuilderSeal($2), RevealedValue::with_blinding(conv:Amount($3), $4, %s))'),
                ('add_fungible_default_state', 'fungible', DFT, '(conv:BuilderSeal($1), RevealedValue::new_random_blinding(conv:Amount($2), %s))'),
                ('add_fungible_default_state_det', 'fungible', DFT, '(conv:BuilderSeal($1), RevealedValue::with_blinding(conv:Amount($2), $3, %s))'),
                ('add_data', 'data', ATY, '(conv:BuilderSeal($2), RevealedData::new_random_salt(conv:DataState(%s)))' % (SER % '$3')),
                ('add_data_det', 'data', ATY, '(conv:BuilderSeal($2), $3)'),
                ('add_data_raw', 'data', '$1', '(conv:BuilderSeal($2), RevealedData::with_salt(conv:Allocation($3), $4 as u128))'),
                ('add_data_default', 'data', DFT, '(conv:BuilderSeal($1), RevealedData::new_random_salt(conv:DataState(%s)))' % (SER % '$2')),
                ('add_attachment', 'attachments', ATY, '(conv:BuilderSeal($2), RevealedAttach::new_random_salt($3.id, $3.media_type))'),
                ('add_attachment_det', 'attachments', ATY, '(conv:BuilderSeal($2), $3)')):
            if con and ('default' in name or name.endswith('_raw')):
                continue
            g = graph(name)
            site = S % name
            tags = con and coll == 'fungible'
            if coll == 'fungible':
                rnd = 'AssetTag::new_random(*, %s)' % ty
                tg = ['get($0.builder.asset_tags, %s)@Some' % ty]
                if tags:
                    # a random tag is made for a type without a tag
                    new = [e for e in g.events('add') if show(e.args[0]) == B + 'asset_tags']
                    for e in new:
                        ck.ob(site, m(e.args[1], '(%s, %s)' % (ty, rnd)), 'a new tag is random and belongs to the type: %s' % cutstr(show(e.args[1])), loc=e.loc)
                        ck.hold(site, g.only_if(lambda z: z is e, ['get($0.builder.asset_tags, %s) is None' % ty]), 'a known tag is not replaced', loc=e.loc)
                    tg += ['get($0.builder.asset_tags+<add((%s, %s))>, %s)@Some' % (ty, rnd, ty), '{%s | get($0.builder.asset_tags, %s)@Some}' % (rnd, ty)]
                item = [item % t for t in tg]
            owned(ck, site, g, coll, ty, item, tags)
            layers(site, g, 'conv:BuilderSeal($1)' if ty == DFT else 'conv:BuilderSeal($2)')
        # state as found in a store
        for name, ty in (('add_owned_state_det', ATY), ('add_owned_state_raw', '$1')):
            if con and name.endswith('_raw'):
                continue
            for v, t in variant_terms(p, p.adt('PersistedState'), mk('param', 3, 'st')):
                coll, item = {
                    'Void': ('rights', 'conv:BuilderSeal($2)'),
                    'Amount': ('fungible', '(conv:BuilderSeal($2), RevealedValue::with_blinding($3@Amount, $3@Amount.1, $3@Amount.2))'),
                    'Data': ('data', '(conv:BuilderSeal($2), RevealedData::with_salt($3@Data, $3@Data.1))'),
                    'Attachment': ('attachments', '(conv:BuilderSeal($2), RevealedAttach::with_salt($3@Attachment.id, $3@Attachment.media_type, $3@Attachment.1))')}[v]
                g = graph(name, argterms=[None, None, None, t])
                site = S % name
                owned(ck, site, g, coll, ty, item)
                layers(site, g)
                if v == 'Amount':
                    tg = 'get($0.builder.asset_tags, %s)@Some' % ty
                    ck.hold(site, g.must(None, ['(%s == $3@Amount.2)' % tg, '($3@Amount.2 == %s)' % tg]), 'the tag of the state is the one of the contract')
        # global state, metadata
        for name, coll, look, sem, call, arg in (
                ('add_global_state', 'global', 'IfaceImpl::global_type', 'get($0.builder.schema.global_types, %s)@Some.sem_id', 'GlobalState::add_state', 'conv:DataState(%s)'),
                ('add_metadata', 'meta', 'IfaceImpl::meta_type', 'get($0.builder.schema.meta_types, %s)@Some', 'Metadata::add_value', 'conv:MetaValue(%s)')):
            g = graph(name)
            site = S % name
            ty = '%s($0.builder.iimpl, $1)@Some' % look
            ser = SER % '$2'
            put = E(call, B + coll, ty, arg % ser)
            ck.ob(site, len(g.events(call)) >= 1 and all(put(e) for e in g.events(call)), 'the value is put under the type of its name')
            ck.hold(site, g.must(put), 'success means the value is in the builder')
            ck.hold(site, g.must(None, [call + '(* is Ok']), 'a failure to add it is returned')
            ck.hold(site, g.must(None, ['TypeSystem::strict_deserialize_type($0.builder.types, %s, %s) is Ok' % (sem % ty, ser)]), 'only values of the type defined by the schema are taken')
            for n, r in g.rets():
                for v in okval(r):
                    same(ck, site, p, v, (coll,))
                    ck.ob(site, show(field(field(v, 'builder'), coll)) == '%s+<%s(%s, %s)>' % (B + coll, call, ty, arg % ser), 'the value is added to those given before')
        for name, ty in (('add_asset_tag', ATY), ('add_asset_tag_raw', '$1')):
            if con and name.endswith('_raw'):
                continue
            g = graph(name)
            site = S % name
            put = E('add', B + 'asset_tags', '(%s, $2)' % ty)
            ck.hold(site, g.must(put), 'the tag is put under its type')
            ck.hold(site, g.only_if(E('add'), ['get($0.builder.fungible, %s) is None' % ty, '!contains($0.builder.fungible, %s)' % ty]), 'a tag is not changed once state was made with it')
            for n, r in g.rets():
                for v in okval(r):
                    same(ck, site, p, v, ('asset_tags',))
    g = ck.graph(G(p, p.find('add_input', 'TransitionBuilder'), ST))
    site = 'TransitionBuilder::add_input'
    ck.hold(site, g.must(E('add', '$0.inputs', '(Input::with($1), $2)')), 'the input is put with its state')
    ck.hold(site, g.must(None, ['Confined::insert($0.inputs* is Ok']), 'a failure is returned')
    for n, r in g.rets():
        for v in okval(r):
            same(ck, site, p, v, ('inputs',))
            ck.ob(site, show(field(v, 'inputs')) == '$0.inputs+<add((Input::with($1), $2))>', 'the other inputs are kept')
    # plain settings
    for who, name, f, val in (('ContractBuilder', 'set_mainnet', 'testnet', 'false'), ('TransitionBuilder', 'set_nonce', 'nonce', '$1')):
        g = ck.graph(G(p, p.find(name, who), ST))
        for n, v in g.rets():
            same(ck, who + '::' + name, p, v, (f,))
            ck.ob(who + '::' + name, show(field(v, f)) == val, 'the setting is made: %s' % show(field(v, f)))
    g = ck.graph(G(p, p.find('add_layer1', 'ContractBuilder'), ST))
    site = 'ContractBuilder::add_layer1'
    ck.hold(site, g.must(E('add', '$0.alt_layers1', '$1')), 'the blockchain is added')
    for n, r in g.rets():
        for v in okval(r):
            same(ck, site, p, v, ('alt_layers1',))
    for name, args in (('has_layer1', None), ('check_layer1', None)):
        for v, t in variant_terms(p, p.adt('Layer1'), mk('param', 1, '')):
            g = ck.graph(G(p, p.find(name, 'ContractBuilder'), ST, argterms=[None, t]))
            site = 'ContractBuilder::' + name
            has = 'contains($0.alt_layers1, AltLayer1::Liquid)'
            rs = {show(x) for n, r in g.rets() for x in alts(r)}
            if name == 'has_layer1':
                ck.ob(site, rs == ({'true'} if v == 'Bitcoin' else {has}), '%s is used only if the contract was told so: %s' % (v, rs))
            elif v == 'Bitcoin':
                ck.ob(site, not any('Err' in x for x in rs), 'Bitcoin is always allowed')
            else:
                ck.hold(site, g.must(None, [has]), '%s is allowed only if the contract was told so' % v)
    # new builders
    def empty(site, v):
        b = field(v, 'builder')
        for f in OWNED + ('asset_tags', 'global', 'meta'):
            ck.ob(site, show(field(b, f)).startswith(('empty<', 'default')), 'a new builder has no %s: %s' % (f, cutstr(show(field(b, f)))))

    def given(site, v, want):
        for f, w in want.items():
            t = v
            for s in f.split('.'):
                t = field(t, s)
            ck.ob(site, show(t) == w, '%s is the one given: %s' % (f, cutstr(show(t))))
    for name in ('with', 'deterministic'):
        g = ck.graph(G(p, p.find(name, 'ContractBuilder'), ST))
        site = 'ContractBuilder::' + name
        for n, v in g.rets():
            empty(site, v)
            given(site, v, {'issuer': '$0', 'builder.iface': '$1', 'builder.schema': '$2', 'builder.iimpl': '$3', 'builder.types': '$4', 'scripts': '$5', 'testnet': 'true'})
            ck.ob(site, show(field(v, 'alt_layers1')).startswith(('empty<', 'default')), 'a new builder uses Bitcoin only')
    for name, ty in (('blank_transition', None), ('default_transition', 'IfaceImpl::transition_type($3, $1.default_operation@Some)@Some'.replace('$3', '$3')), ('named_transition', 'IfaceImpl::transition_type($3, $4)@Some')):
        for det in ('', '_det'):
            g = ck.graph(G(p, p.find(name + det, 'TransitionBuilder'), ST))
            site = 'TransitionBuilder::' + name + det
            vals = [x for n, r in g.rets() for x in (okval(r) if ty else alts(r))]
            ck.ob(site, bool(vals), 'a builder is returned')
            for v in vals:
                empty(site, v)
                given(site, v, {'contract_id': '$0', 'builder.iface': '$1', 'builder.schema': '$2', 'builder.iimpl': '$3', 'builder.types': '$5' if name[0] == 'n' else '$4'})
                ck.ob(site, show(field(v, 'inputs')).startswith(('empty<', 'default')), 'a new transition has no inputs')
                t = show(field(v, 'transition_type'))
                ck.ob(site, t == ty if ty else t == 'TransitionType(65535)', 'the transition is of the type asked for: %s' % t)

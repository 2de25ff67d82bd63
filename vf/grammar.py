"""The grammar and LALR automaton bison builds from src/parser/parse.y (its XML report)."""
import re, os
import xml.etree.ElementTree as ET


class Rule:
    __slots__ = ('num', 'lhs', 'rhs', 'useful', 'prec')

    def __repr__(self):
        return '%s: %s' % (self.lhs, ' '.join(self.rhs) or '%empty')


class Grammar:
    def __init__(self, d):
        root = ET.parse(os.path.join(d, 'grammar.xml')).getroot()
        self.alias = {}
        src = open(os.path.join(d, 'parse.y'), encoding='utf-8', errors='replace').read()
        decl = src.split('\n%%')[0]
        for m in re.finditer(r'\b([A-Za-z]\w*)(?:\s+\d+)?\s+("(?:[^"\\\n]|\\.)*")', decl):
            self.alias[m.group(2)] = m.group(1)
        g = root.find('grammar')
        self.terminals = {}
        self.prec = {}
        for t in g.find('terminals'):
            n = self.nm(t.get('name'))
            self.terminals[n] = int(t.get('token-number'))
            if t.get('prec'):
                self.prec[n] = (int(t.get('prec')), t.get('assoc'))
        self.nonterminals = [n.get('name') for n in g.find('nonterminals')]
        self.rules = []
        for r in g.find('rules'):
            x = Rule()
            x.num = int(r.get('number'))
            x.lhs = r.find('lhs').text
            x.rhs = tuple(self.nm(s.text) for s in r.find('rhs') if s.tag == 'symbol')
            x.useful = r.get('usefulness')
            x.prec = self.nm(r.get('percent_prec')) if r.get('percent_prec') else None
            assert x.num == len(self.rules)
            self.rules.append(x)
        self.by_lhs = {}
        for r in self.rules:
            self.by_lhs.setdefault(r.lhs, []).append(r)
        self.states = []
        for s in root.find('automaton'):
            st = State()
            st.num = int(s.get('number'))
            st.items = [(int(i.get('rule-number')), int(i.get('dot'))) for i in s.find('itemset')]
            a = s.find('actions')
            st.shift, st.goto, st.err, st.red, st.default = {}, {}, set(), {}, None
            for t in a.find('transitions'):
                n = self.nm(t.get('symbol'))
                (st.shift if t.get('type') == 'shift' else st.goto)[n] = int(t.get('state'))
            for e in a.find('errors'):
                st.err.add(self.nm(e.get('symbol')))
            for r in a.find('reductions'):
                if r.get('enabled') == 'false':
                    continue
                sy = r.get('symbol')
                ru = r.get('rule')
                ru = 'accept' if ru == 'accept' else int(ru)
                if sy == '$default':
                    st.default = ru
                else:
                    st.red[self.nm(sy)] = ru
            self.states.append(st)

    def nm(self, s):
        if s is None:
            return None
        return self.alias.get(s, s)

    def is_term(self, s):
        return s in self.terminals

    def action(self, st, tok):
        """('shift', state) | ('reduce', rule) | ('error',)"""
        if tok in st.shift:
            return ('shift', st.shift[tok])
        if tok in st.err:
            return ('error',)
        if tok in st.red:
            return ('reduce', st.red[tok])
        if st.default is not None:
            return ('reduce', st.default)
        return ('error',)


class State:
    __slots__ = ('num', 'items', 'shift', 'goto', 'err', 'red', 'default')


def load(ctx):
    return ctx.memo('grammar', lambda: Grammar(ctx.dir))

"""C17: each diagnostic kind always has its own fixed severity."""
from .. import cg, models, flow, diag
from ..interp import Interp, Hooks, State, sym

WARN = '''AmbiguousFirstArgument AmbiguousOperator AmbiguousRegexp AmbiguousTernaryOperator AmpersandInterpretedAsArgPrefix
ComparisonAfterComparison DStarInterpretedAsArgPrefix DuplicateHashKey EndInMethod InvalidCharacterSyntax NthRefIsTooBig
ParenthesesIterpretedAsArglist SlashRAtMiddleOfLine StarInterpretedAsArgPrefix TokAtEolWithoutExpression TripleDotAtEol'''.split()
ERROR = '''AliasNthRef BeginNotAtTopLevel BlockAndBlockArgGiven BlockGivenToYield CantAssignToEncoding CantAssignToFalse CantAssignToFile
CantAssignToLine CantAssignToNil CantAssignToNumparam CantAssignToSelf CantAssignToTrue CantSetVariable CircularArgumentReference
ClassDefinitionInMethodBody ClassOrModuleNameMustBeConstant ConstArgument CsendInsideMasgn CvarArgument CvarWithoutId DuplicateKeyName
DuplicateVariableName DuplicatedArgumentName DynamicConstantAssignment ElseWithoutRescue EmbeddedDocumentMeetsEof EncodingError
EndlessSetterDefinition ForwardArgAfterRestarg FractionAfterNumeric GvarArgument GvarWithoutId IncompleteCharacterSyntax InvalidChar
InvalidCvarName InvalidEscapeCharacter InvalidGvarName InvalidHexEscape InvalidIdToGet InvalidIvarName InvalidMultibyteChar
InvalidOctalDigit InvalidReturnInClassOrModuleBody InvalidSymbol InvalidUnicodeCodepoint InvalidUnicodeEscape IvarArgument IvarWithoutId
KeyMustBeValidAsLocalVariable ModuleDefinitionInMethodBody MultipleCodepointAtSingleChar NoAnonymousBlockarg NoDigitsAfterDot
NoSuchLocalVariable NumericLiteralWithoutDigits NumparamUsed OrdinaryParamDefined ReservedForNumparam SingletonLiteral
SymbolLiteralWithInterpolation TooLargeUnicodeCodepoint TrailingCharInNumber UnexpectedToken UnknownRegexOptions
UnknownTypeOfPercentString UnterminatedHeredoc UnterminatedHeredocId UnterminatedList UnterminatedQuotedString UnterminatedRegexp
UnterminatedString UnterminatedUnicodeEscape VoidValueExpression'''.split()


class H(Hooks):
    def on_panic(self, *a):
        pass


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('constant propagation of (severity, kind) from every place a Diagnostic is built, through the reporting helpers to each '
                'call site, compared with the severity Ruby gives that kind; no code changes the severity of an existing diagnostic')
    if not rep.anchor('ErrorLevel', P.adts.get(diag.LEVEL)):
        return
    D = diag.Diags(P)
    good, rest = D.resolved()
    rep.floor('report sites', len(good), 80)
    spec = {k: 'Warning' for k in WARN}
    spec.update({k: 'Error' for k in ERROR})
    seen = {}
    for lv, k, fn, where in sorted(good):
        seen.setdefault(k, {}).setdefault(lv, (fn, where))
        if k in spec:
            rep.check(lv == spec[k], 'severity/%s/%s' % (k, fn), '%s is reported as %s by %s; it must always be %s' % (k, lv.lower(), fn, spec[k].lower()),
                      detail=lv, where=where)
    for k, m in sorted(seen.items()):
        if k not in spec:
            rep.check(len(m) == 1, 'single/' + k, '%s is reported with different severities: %s' % (k, {l: w[0] for l, w in m.items()}))
    for lv, ms, fn, where in sorted(rest, key=str):
        # a severity that depends on something else than the kind
        if lv[0] == 'k' and ms[0] != 'k':
            ks = None
            rep.bad('unknown-kind/%s' % fn, '%s reports a diagnostic whose kind cannot be determined (%s)' % (fn, ms[1]), where=where)
        else:
            rep.bad('unknown-level/%s/%s' % (fn, ms[1]), '%s reports %s with a severity that is not fixed (%s)' % (fn, ms[1] if ms[0] == 'k' else 'a diagnostic', lv[1]), where=where)
    rep.count('kinds reported', len(seen))
    # nobody edits severity or kind afterwards
    for n, f in P.fns.items():
        if f.kind != 'fn' or f.derived:
            continue
        for b, m, p in flow.accesses(f):
            last = p[-1] if len(p) > 1 else None
            ty = f.locals[p[0]].lstrip('&').replace('mut ', '')
            if m in ('write', 'mutref') and isinstance(last, list) and last[0] == 'f' and last[2] in ('level', 'message') and ty == diag.DIAG:
                rep.bad('edit/%s' % n, '%s changes the %s of a diagnostic after it was built' % (n, last[2]), where=f.span)
    # the public predicates
    for nm, want in (('is_error', 'Error'), ('is_warning', 'Warning')):
        f = P.fns.get(diag.DIAG + '::' + nm)
        if not rep.anchor('Diagnostic::' + nm, f):
            continue
        iL = [x for x, t in P.adts[diag.DIAG]['variants'][0][1]].index('level')
        for vi, (vn, _) in enumerate(P.adts[diag.LEVEL]['variants']):
            cell = ('H', ('d',))
            fs = [sym('f', i) for i in range(len(P.adts[diag.DIAG]['variants'][0][1]))]
            fs[iL] = ('a', diag.LEVEL, vi, ())
            I = Interp(P, models.M, H())
            for rv, st in I.run(f, [('&', cell, ())], State({cell: ('a', diag.DIAG, 0, tuple(fs))}, {}, {}), 1):
                rep.check(rv == ('i', int(vn == want)), 'predicate/%s/%s' % (nm, vn), 'Diagnostic::%s is wrong for %s' % (nm, vn), where=f.span)
    rep.trusted = ['severity per kind: MRI / parser gem']

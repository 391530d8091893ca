"""R21: ill-formed declarations fail to compile.

Compile-fail witnesses: a generated family of declarations, each breaking one rule of
the declaration language, is expanded and type-checked against the current tree; each
has a twin that differs only in what the rule names and must compile."""
import collections

import ctwit
import witness_decls as W

LEVEL = 'other'
CONFIGS = []
TECHNIQUE = 'static: compile-fail witnesses (programs the compiler must refuse, with twins it must accept)'
RULE = ('every generated declaration that breaks one rule of the declaration language is refused by the compiler with an '
        'error located in that declaration, and its well-formed twin is accepted: revision numbers and histories, lifetimes of '
        'fields and variants, conversions of removed fields and variants, repeated and conflicting options, per-field encoding '
        'options on types without that encoding, discriminant overrides, size classes and 5-bit limits of optimised enums. Each '
        'rule is instantiated for structs, tuple structs and both variant forms, histories of 1 to 3 revisions, the legacy, '
        'modern and optimised notations')
ASSUME = ['the family is finite: histories of at most three revisions and the listed field types; every rule of the macro is '
          'a comparison against the history, so each is witnessed on both sides of its boundary']
D = 'revision-derive/src/'
ANCHOR = {
    'no revision': D + 'expand/mod.rs revision', 'revision given twice': D + 'expand/mod.rs revision',
    'revision out of range': D + 'expand/mod.rs revision', 'contradictory history': D + 'ast/attributes.rs resolve_history',
    'duplicate item option': D + 'ast/attributes.rs ItemOptions::finish', 'unknown option': D + 'ast/attributes.rs Parse',
    'unsupported container encoding': D + 'ast/attributes.rs build_history_entry',
    'encoding option without optimised': D + 'ast/attributes.rs build_history_entry',
    'start beyond the current revision': D + 'expand/validate_version.rs ValidateRevision',
    'end beyond the current revision': D + 'expand/validate_version.rs ValidateRevision',
    'override beyond the current revision': D + 'expand/validate_version.rs ValidateRevision',
    'contradictory lifetime': D + 'expand/validate_version.rs ValidateRevision',
    'removed without conversion': D + 'ast/attributes.rs finish', 'duplicate field option': D + 'ast/attributes.rs FieldOptions::finish',
    'conflicting field options': D + 'ast/attributes.rs FieldOptions::finish',
    'fixed on an unsupported type': D + 'expand/common.rs fixed_int_name',
    'duplicate variant option': D + 'ast/attributes.rs VariantOptions::finish',
    'discriminant used twice': D + 'expand/common.rs GatherOverrides',
    'override without a revision': D + 'ast/attributes.rs VariantOptions::finish',
    'over-large discriminant': D + 'expand/validate_version.rs ValidateOptimised',
    'missing size class': D + 'expand/validate_version.rs ValidateOptimised',
    'inline variant with fields': D + 'expand/validate_version.rs ValidateOptimised',
    'too many variants': D + 'expand/validate_version.rs ValidateOptimised',
    'bad size class': D + 'ast/attributes.rs parse_variant_size',
    'traversal of a converted type without both directions': D + 'expand/walk.rs emit_walk_impl',
}


accepted = 'the compiler accepts an ill-formed declaration'


def run(progs, rep):
    cs = W.cases()
    by = collections.Counter(c[0] for c in cs)
    ctwit.judge(rep, W.PRE, cs, 'w21', ANCHOR, accepted)
    ctwit.judge(rep, W.PRE, W.type_cases(), 't21', ANCHOR, accepted)
    rep.extra['rules'] = dict(by)

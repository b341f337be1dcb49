from rules import decoder, tables, tokens, escapes, lexer, parser, forms, tree, reader, abstraction, api, spans

REGISTRY = {
    "P01": {"level": "proof", "rules": [decoder.rule_decode]},
    "P02": {"level": "proof", "rules": [decoder.rule_flag]},
    "P03": {"level": "proof", "rules": [decoder.rule_loc]},
    "P04": {"level": "proof", "rules": [tables.rule_grammar]},
    "P08": {"level": "proof", "rules": [tables.rule_names]},
    "P05": {"level": "proof", "rules": [tables.rule_classify]},
    "P06": {"level": "proof", "rules": [tables.rule_brackets]},
    "P07": {"level": "proof", "rules": [tables.rule_longnames]},
    "P09": {"level": "proof", "rules": [tokens.rule_operators]},
    "P10": {"level": "proof", "rules": [escapes.rule_escapes]},
    "P11": {"level": "proof", "rules": [lexer.rule_extents]},
    "P12": {"level": "proof", "rules": [reader.rule_peek]},
    "P13": {"level": "proof", "rules": [reader.rule_issues]},
    "P14": {"level": "proof", "rules": [reader.rule_flow]},
    "P15": {"level": "proof", "rules": [parser.rule_parser]},
    "P24": {"level": "proof", "rules": [forms.rule_forms]},
    "P16": {"level": "proof", "rules": [tree.rule_builder]},
    "P17": {"level": "proof", "rules": [tree.rule_traverse]},
    "P18": {"level": "proof", "rules": [tree.rule_aggregate]},
    "P20": {"level": "proof", "rules": [abstraction.rule_abstraction]},
    "P19": {"level": "proof", "rules": [api.rule_results]},
    "P21": {"level": "proof", "rules": [api.rule_options]},
    "P22": {"level": "proof", "rules": [lexer.rule_lexical]},
    "P23": {"level": "proof", "rules": [spans.rule_spans]},
    "P25": {"level": "proof", "rules": [lexer.rule_places]},
}

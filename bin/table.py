"""Which units (verus/units/*.vx) and which differential checks (harness/src/props.rs) decide a property."""
PROPS={
 'C01':dict(units=['difference','cologne','caverphone','nysiis','phonex','metaphone','mra','double_metaphone','dm','bm','bm_config'],secs=30,kinds='panic',vacuity=False,note='Proved: the encoders, and reading of Daitch-Mokotoff rule texts and of Beider-Morse directories (acyclic includes; a configuration that lists the language any). That the built-in texts are well formed is decided by evaluating the specification on them. Vacuity probes of these units run with the properties they serve.'),
 'C02':dict(units=['soundex']),
 'C03':dict(units=['refined']),
 'C04':dict(units=['cologne']),
 'C05':dict(units=['caverphone']),
 'C06':dict(units=['nysiis']),
 'C07':dict(units=['phonex']),
 'C17':dict(units=['shapes','soundex','refined','cologne','caverphone','nysiis','phonex','metaphone','mra','double_metaphone','dm'],secs=15,kinds='own',vacuity=False,note='Proved: lemmas (unit shapes) over the contracts of the encoders, which the other units discharge. A changed encoder that no longer meets its contract need not break the shape: the run then evaluates the shapes on the crate (bounded).'),
 'C18':dict(units=['ascii_case','soundex','refined','cologne','caverphone','nysiis','phonex','metaphone','mra','double_metaphone','dm','bm'],secs=15,kinds='own',vacuity=False,note='Proved: lemmas (unit ascii_case) over the contracts of the encoders, which the other units discharge. A changed encoder that no longer meets its contract need not tell cases apart: the run then evaluates pairs of spellings on the crate (bounded).'),
 'C19':dict(units=['soundex','refined'],secs=5),
 'C08':dict(units=['metaphone']),
 'C09':dict(units=['mra']),
 'C10':dict(units=['mra']),
 'C11':dict(units=['double_metaphone']),
 'C12':dict(units=['dm'],secs=20,note='Proved: build() (with the parsers of lines, over assumed contracts of nom combinators) for every rule text, and the encoder for every rule table. The built-in rules are the text include_str names, read as the specification reads it (that this text is well formed is evaluated with the specification on every run).'),
 'C13':dict(units=['bm'],secs=25,note='Proved: the whole engine, for every configuration that reading files establishes (unit bm_config: common and any rules for each name and rule type, a language list with any).'),
 'C14':dict(units=['languages'],secs=4),
 'C15':dict(units=['char_show'],secs=5),
 'C16':dict(units=['difference']),
 'C20':dict(units=['bm_rule'],secs=8),
 'C21':dict(units=['rules_parser','bm_regex','bm_config'],secs=25,note='Proved, for every text and directory: the parsers of lines, the contexts they build, rule files with their includes, files of languages and of language detection, and the configuration they make (over assumed contracts of nom combinators, std::fs and paths; includes acyclic). That the built-in texts are well formed is decided by evaluating the specification on them.'),
}
# the properties that evaluate what a unit proves (aim of C01, C17, C18 when the unit is not proved)
FOCUS={'soundex':['C02','C19'],'refined':['C03','C19'],'difference':['C16','C02','C03'],'cologne':['C04'],'caverphone':['C05'],'nysiis':['C06'],'phonex':['C07'],'metaphone':['C08'],'mra':['C10','C09'],'double_metaphone':['C11'],'dm':['C12'],'bm':['C13','C20'],'bm_config':['C21','C13']}

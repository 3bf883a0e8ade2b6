// written by tools/gen/rule_parser.py: opcode, restrictions (0 none, 1 nofor / noback, 2 these and nocross), kinds of operands, what else the rule carries
pub const OPCODES: &[(&str, u8, &str, &str)] = &[
    ("include", 0, "word", ""),
    ("undefined", 0, "cells", ""),
    ("display", 1, "char cell", "constraints"),
    ("multind", 1, "cells names", "constraints"),
    ("space", 1, "char cells", "constraints"),
    ("punctuation", 1, "char cells", "constraints"),
    ("digit", 1, "char cells", "constraints"),
    ("letter", 1, "char cells", "constraints"),
    ("lowercase", 1, "char cells", "constraints"),
    ("uppercase", 1, "char cells", "constraints"),
    ("litdigit", 1, "char cells", "constraints"),
    ("sign", 1, "char cells", "constraints"),
    ("math", 1, "char cells", "constraints"),
    ("hyphen", 1, "char cells", "constraints"),
    ("grouping", 1, "name text twocells", ""),
    ("base", 0, "name char char", ""),
    ("modeletter", 1, "name cells", "constraints"),
    ("begmodeword", 1, "name cells", "constraints"),
    ("begemph", 1, "name cells", "constraints"),
    ("endemph", 1, "name cells", "constraints"),
    ("capsletter", 1, "cells", "constraints"),
    ("begcapsword", 1, "cells", "constraints"),
    ("endcapsword", 1, "cells", "constraints"),
    ("nocontractsign", 1, "cells", "constraints"),
    ("nonumsign", 1, "cells", "constraints"),
    ("begcomp", 1, "cells", "constraints"),
    ("endcomp", 1, "cells", "constraints"),
    ("capsmodechars", 0, "text", ""),
    ("noletsign", 0, "text", ""),
    ("noletsignbefore", 0, "text", ""),
    ("noletsignafter", 0, "text", ""),
    ("numericnocontchars", 0, "text", ""),
    ("numericmodechars", 0, "text", ""),
    ("midendnumericmodechars", 0, "text", ""),
    ("seqdelimiter", 0, "text", ""),
    ("seqbeforechars", 0, "text", ""),
    ("seqafterchars", 0, "text", ""),
    ("seqafterpattern", 0, "text", ""),
    ("seqafterexpression", 0, "text", ""),
    ("nocont", 0, "text", ""),
    ("contraction", 0, "text", ""),
    ("exactdots", 0, "text", ""),
    ("literal", 0, "text", ""),
    ("begcaps", 0, "cells", ""),
    ("endcaps", 0, "cells", ""),
    ("begcapsphrase", 0, "cells", ""),
    ("letsign", 0, "cells", ""),
    ("numsign", 0, "cells", ""),
    ("endcapsphrase", 0, "position cells", ""),
    ("lencapsphrase", 0, "number", ""),
    ("begmodephrase", 0, "name cells", ""),
    ("emphletter", 0, "name cells", ""),
    ("begemphword", 0, "name cells", ""),
    ("endemphword", 0, "name cells", ""),
    ("begemphphrase", 0, "name cells", ""),
    ("endmodephrase", 0, "name position cells", ""),
    ("endemphphrase", 0, "name position cells", ""),
    ("lenmodephrase", 0, "name number", ""),
    ("lenemphphrase", 0, "name number", ""),
    ("class", 0, "name text", ""),
    ("noemphchars", 0, "name text", ""),
    ("emphmodechars", 0, "name text", ""),
    ("attribute", 0, "name text", ""),
    ("emphclass", 0, "name", ""),
    ("decpoint", 0, "char cells", ""),
    ("capsnocont", 0, "", ""),
    ("compbrl", 1, "text", "constraints"),
    ("comp6", 0, "text dots", ""),
    ("syllable", 0, "text dots", ""),
    ("replace", 0, "text maybe", ""),
    ("repeated", 1, "text cells", "constraints"),
    ("lowword", 1, "text cells", "constraints"),
    ("repword", 0, "text cells", ""),
    ("largesign", 0, "text cells", ""),
    ("joinword", 0, "text cells", ""),
    ("rependword", 0, "text twolists", ""),
    ("word", 1, "text dots", "constraints with_classes"),
    ("always", 2, "text dots", "constraints with_classes"),
    ("sufword", 2, "text dots", "constraints with_classes"),
    ("prfword", 2, "text dots", "constraints with_classes"),
    ("begword", 2, "text dots", "constraints with_classes"),
    ("begmidword", 2, "text dots", "constraints with_classes"),
    ("midword", 2, "text dots", "constraints with_classes"),
    ("midendword", 2, "text dots", "constraints with_classes"),
    ("endword", 2, "text dots", "constraints with_classes"),
    ("partword", 2, "text dots", "constraints with_classes"),
    ("prepunc", 2, "text cells", "constraints"),
    ("postpunc", 2, "text cells", "constraints"),
    ("begnum", 2, "text cells", "constraints"),
    ("midnum", 2, "text cells", "constraints"),
    ("joinnum", 2, "text cells", "constraints"),
    ("endnum", 2, "text dots", "constraints"),
    ("swapcd", 0, "name text lists", "same"),
    ("swapdd", 0, "name singles lists", "same"),
    ("swapcc", 0, "name text text", "same"),
    ("context", 1, "test action", "constraints"),
    ("pass2", 1, "test action", "constraints"),
    ("pass3", 1, "test action", "constraints"),
    ("pass4", 1, "test action", "constraints"),
    ("correct", 1, "test action", "constraints"),
    ("match", 1, "pre text post dots", "constraints matches"),
];

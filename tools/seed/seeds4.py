import os,runpy
g=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds1.py')) if '__file__' in globals() else {}
L,LB,DIG,N,RS,RSE=[g[k] for k in ('L','LB','DIG','N','RS','RSE')]
SEEDS=[
dict(id='undefined-first',property='C09',
 edits=[('src/translator/table/primary.rs','''                    builder.undefined = Some(dots.to_string());''','''                    builder.undefined.get_or_insert(dots.to_string());''')],
 cases=[('letter a 1\nundefined 26\nundefined 35\n','aqa',None)],
 needs='a table with two undefined rules', breaks='the first one counts'),
dict(id='undefined-padding',property='C09',
 edits=[('src/translator/table/primary.rs','''        ch.escape_unicode()
            .to_string()
            .replace(r"\\u", r"\\x") // replace \\u by \\x
            .replace(['{', '}'], "") // drop the curly braces
            .chars()''','''        // \\x, followed by the UTF-16 code of the character
        format!(r"\\x{:x}", ch.encode_utf16(&mut [0; 2])[0])
            .chars()''')],
 cases=[('letter a 1\n','a\U0001f600',None)],
 needs='a character beyond the basic plane without definition', breaks='the escape names half of a surrogate pair'),
dict(id='undefined-class-fallback',property='C09',
 edits=[('src/translator.rs','''    fn insert(&mut self, from: char, to: &str) {
        if cfg!(feature = "backwards_compatibility") {
            // first rule wins
            self.0.entry(from).or_insert(to.to_string());''','''    fn insert(&mut self, from: char, to: &str) {
        if cfg!(feature = "backwards_compatibility") {
            // first rule wins
            let known = self.0.entry(from).or_insert(to.to_string());
            // an unambiguous definition is as good as several
            if known.chars().count() > 1 && to.chars().count() == 1 {
                *known = to.to_string();
            }''')],
 cases=[('letter e 15-2\nletter e 15\nletter a 1\n','a\u00e9',None)],
 needs='a hexadecimal digit that is defined by several cells first and by one cell again', breaks='escapes and implicit dots use the second definition'),
]

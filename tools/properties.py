prop('C01', 'Interpolated values cannot inject markup and read back unchanged',
     'Any value written into the text of an XML template, or of a text template with automatic escaping, appears with & < > and double quotes escaped exactly once, so that a reader of the output recovers exactly the text of the value. Nothing is escaped that the author marked as markup, None produces no output, and text templates without automatic escaping output values verbatim.',
     ['inputs', 'programs'], 'every value (any string, number, boolean, None, object with or without an HTML form, marked-up literal) at every place of a template where a value can be written',
     'Injection safety must hold for every string and every position; the tests sample a few strings in a few positions.',
     [TPL, IR, XML, TEXT], [('escaping of expression values', 'template.py _Template._escape'), ('expression nodes', 'ir.py ExprNode')], RENDER)
prop('C02', 'Attribute values are quoted, escaped once, and omitted when None',
     'An attribute of an element is output as a double-quoted value, made of its static and computed parts and escaped exactly once; it is left out exactly when all its parts are None. Attributes supplied as a mapping or a list of pairs follow the same rules, boolean attributes are present or absent according to their truth and are minimised in HTML, and no value can end its attribute or start another one.',
     ['inputs', 'programs'], 'every combination of static and computed parts, attribute names, values and output modes',
     'The tests check a handful of literal attributes; the rule is about every value and every combination of parts.',
     [IR, TPL, XML, HTML], [('attribute nodes', 'ir.py AttrNode, AttrsNode'), ('rendering of attribute mappings', 'template.py _render_attrs')], RENDER)
prop('C03', 'XML output is well formed and keeps the structure of the template',
     'In XML mode the output of any template is well-formed XML whose elements, attributes, comments and CDATA sections are exactly those the template writes, in the same order and nesting. Stripping an element removes its tags but keeps its content; elements without content are closed, and scripts and styles keep their content unescaped inside a protected section.',
     ['programs', 'inputs'], 'every tree of elements, directives and values',
     'Structure preservation is a statement about all trees; the tests compare a few fixed outputs.',
     [XML, IR], [('serialisation of elements', 'xml_template.py _Compiler._compile_xml')], RENDER)
prop('C04', 'HTML output follows HTML rules for void, empty and raw elements',
     'In HTML modes void elements are written without an end tag, all other elements always get an explicit end tag even when empty, boolean attributes are minimised, and the content of scripts and styles is output as it was written, without escaping. The rest of the output is the same as in XML mode.',
     ['programs', 'configurations'], 'every element name, content and attribute in every output mode',
     'A wrong end tag only shows for specific element names and contents, in one of the modes.',
     [XML, HTML], [('serialisation of elements', 'xml_template.py _Compiler._compile_xml'), ('void and boolean tables', 'html_utils.py')], RENDER)
prop('C05', 'Conditionals, loops and switches run exactly the right branches',
     'A conditional outputs its body exactly when its test is true and the alternative that follows it otherwise; a loop outputs its body once per item, in order, with the loop variables bound to it; a switch outputs the body of the first equal case, or of its default when none is equal. This holds for every nesting of these constructs, in XML and in text templates.',
     ['programs', 'inputs'], 'every nesting of control structures and every outcome of their tests',
     'The number of nestings and outcomes is unbounded; the tests use each construct by itself or in one nesting.',
     [IR, XML, TEXT, TPL], [('code of control structures', 'ir.py IfNode, ElseNode, ForNode, SwitchNode, CaseNode'), ('switch values', 'template.py _push_switch, _pop_switch, _case')], RENDER,
     [('switch stack', 'values of the switches being executed', 'template.py')])
prop('C06', 'Variables bound by py:with are visible inside it and restored after it',
     'Inside a py:with element its variables have the values of their expressions, evaluated in order and each seeing the previous ones. After it every variable that had a value before has that value again, whatever happens inside: nested rebinding, loops over the same name, assignments, function calls.',
     ['programs', 'histories'], 'every nesting of constructs that bind the same names, inside the page or inside functions',
     'Restoring is a matter of histories of nested scopes; the tests have two fixed ones.',
     [IR, TPL], [('entering and leaving a with', 'ir.py WithNode'), ('saved values', 'template.py _push_with, _pop_with')], RENDER,
     [('with stack', 'values to restore', 'template.py')])
prop('C07', 'Template functions bind arguments, defaults, closures and callbacks correctly',
     'A function defined in a template can be called from anywhere in it, before or after its definition, with positional arguments and defaults, and outputs its body with the parameters bound to the arguments. Functions inside functions see the variables of the enclosing call; the body passed by py:call runs in the scope where it was written each time the callee calls it.',
     ['programs', 'inputs'], 'every set of definitions, nestings and call sites',
     'Scoping is a property of all programs; the tests have a few fixed ones.',
     [IR, TPL, XML, TEXT], [('function nodes', 'ir.py DefNode, InnerDefNode, CallNode'), ('binding to an instance', 'template.py TplFunc')], RENDER)
prop('C08', 'Inheritance: the most derived definition wins, and parents stay reachable',
     'In a chain of templates that extend one another, a block or function of an ancestor is replaced by the definition nearest to the template being rendered, wherever it is called from. The versions further up are available through the parent template and the parent block, and a qualified call to the own, parent, child or most derived template resolves against that template and its ancestors.',
     ['programs', 'configurations'], 'chains of any length, with blocks and functions defined in any subset of the levels and called from any level in any way',
     'The tests cover two levels and one override each; resolution depends on the subset of levels, the call site and the kind of call.',
     [TPL, IR, XML, TEXT], [('linking of instances', 'template.py _extend'), ('blocks', 'xml_template.py _compile_block, text.py _parse_block')], RENDER,
     [('instance links', 'parent, child, self and local of an instance', 'template.py')])
prop('C09', 'Included and imported templates see the context but keep their own functions',
     'Including a template outputs what it renders with the current context, without document type; importing it makes its functions available under its name or alias, with or without output. In either case its own functions and self references are its own even when the including template has functions of the same name, and any mix of XML and text templates can be combined.',
     ['programs', 'configurations'], 'every graph of including and importing templates and every collision of names',
     'Name capture only shows for particular collisions of names and nestings of templates.',
     [TPL, IR, LOAD], [('import at run time', 'template.py _import'), ('include and import nodes', 'ir.py IncludeNode, ImportNode')], RENDER)
prop('C12', 'Renderings are isolated from each other and never change their inputs',
     'What a template outputs depends only on the template, the templates it loads and the context it is given. Any number of renderings of the same or different templates can be in progress at once, interleaved in any way, abandoned half way or ended by an error, and each one still outputs exactly what it would output alone. Rendering does not modify the context dictionary, and a compiled template can be rendered any number of times.',
     ['histories', 'schedules'], 'every interleaving of the steps of concurrent renderings, including abandoned and failing ones, and every later use of the same templates',
     'Leaks between renderings show only in particular interleavings or after particular histories; the tests render once and look at the output.',
     [TPL, IR, UTIL], [('per instance state', 'template.py _Template.__init__'), ('stacks for with and switch', 'template.py _push_with, _push_switch')], RENDER + ['the pieces yielded by iterating an instance'],
     [('instance state', 'globals, with stack, switch stack of an instance', 'template.py')],
     technique='TLA+ machine (Render.tla) gives the meaning of each rendering, Sessions.tla the interleavings: all schedules of two sessions up to a bound replayed on the code, long random histories of eight sessions recorded and validated by TLC (SessionTrace.tla)',
     note='All schedules of two sessions within the bound of Sessions.tla for each template of the family; random schedules beyond. Interleaving is between pieces of output (generators), in one thread.')
prop('C13', 'Static text reaches the output unchanged',
     'Character data, attribute values, comments, CDATA sections and script and style content written in a template are output with the same characters, whatever spelling (entities, character references, CDATA) the template uses; comments that start with an exclamation mark and comments outside the root are dropped. White space is preserved, or with strip_text removed exactly at the ends of each run of text.',
     ['inputs', 'configurations'], 'every text in every place of a template, every named HTML entity and character reference',
     'Text is arbitrary: losing a character needs a particular character in a particular place.',
     [XML, IR], [('text nodes', 'xml_template.py _compile_text, _DomTransformer'), ('entities', 'xml_template.py _Parser.skippedEntity, _entities')], RENDER)
prop('C14', 'Exactly the visible static text is offered for translation',
     'Every piece of static text of an XML template, without the white space around it and without the content of scripts and styles, is passed to gettext as one message, and its translation is output in its place; nothing else is passed. The gettext in the context is preferred to the global one. The extractor for Babel yields the same messages the rendering looks up, including gettext calls in expressions, with the line they are on.',
     ['programs', 'inputs'], 'every template and every catalogue',
     'A message that rendering looks up and extraction misses (or the reverse) shows only for particular structures of text, directives and expressions.',
     [I18N, XML, IR, TPL], [('translatable text', 'ir.py TranslatableTextNode'), ('extraction', 'i18n.py extract')], RENDER + ['arguments of gettext', 'tuples yielded by kajiki.i18n.extract'],
     technique=MB + '; the messages of Render.tla (MessagesOf) are compared with the extractor by ExtractTrace.tla')
prop('C16', 'Errors while rendering name the template and line they come from',
     'When an expression of a template raises an exception while rendering, the exception that reaches the caller is the original one, and its traceback shows the template that contains the expression and a line of the construct it is written in. This holds for every construct, in functions, blocks, loops, included, imported and extended templates, and whatever the lines before it contain.',
     ['programs', 'inputs'], 'every position of a failing expression in every arrangement of lines of a template',
     'The line depends on everything written before the failing expression; the tests check two or three positions.',
     [IR, XML, TEXT, TPL], [('line numbers of generated code', 'ir.py generate_python, PyLine'), ('traceback patching', 'template.py patch_code_file_lines')], ['innermost template frame of the traceback'])
prop('C17', 'Document type: output mode and DOCTYPE follow the declaration and options',
     'The output mode of an XML template is the one asked for explicitly (or by the file extension), otherwise the one its document type implies, otherwise XML. The document type is output once, before everything else, as it was written; an HTML5 page without one gets the HTML5 document type. Fragments, included templates and templates that extend others never output a document type of their own, and text that looks like a document type inside the page is left alone.',
     ['configurations', 'programs'], 'every document type, however written, in every template of every combination of inheriting, included and imported templates, with every mode',
     'The result depends on the combination of document type, explicit mode, extension and role of the template; the tests check a few of them.',
     [XML, 'kajiki/doctype.py', LOAD], [('choice of the mode', 'xml_template.py _Compiler.__init__'), ('output of the DTD', 'xml_template.py _Compiler.compile'), ('recognition', 'doctype.py extract_dtd, DocumentTypeDeclaration.matching')], RENDER)
prop('C20', 'Directives as attributes and as elements mean the same',
     'Any set of directives on one element, in any order, means the same as the nested directive elements in the documented order (def, call, case, else, for, if, switch, with, replace, block, extends outermost first) around the element, and the modifiers strip, content and attrs apply to the element itself. The order in which attributes are written, the use of py:nop, comments before the root and equivalent spellings make no difference.',
     ['programs'], 'every combination of directives on an element and every way of writing it',
     'The number of combinations and spellings is large; the tests have one or two per directive.',
     [XML, 'kajiki/markup_template.py'], [('expansion', 'xml_template.py _DomTransformer._expand_directives'), ('precedence', 'markup_template.py QDIRECTIVES')], RENDER)
prop('C10', 'A file loader gives the current template, compiled once per change',
     'With reload, loading a name gives the template of the file that is now first in the search path, recompiled exactly when that file is not the one compiled before (another directory or another modification time, older or newer); otherwise the very same template again. Without reload the first template loaded stays. A missing file is an IOError, a broken one its error, and neither keeps a later load from working. A template already loaded keeps its content, while the templates it includes or extends are loaded when it is rendered.',
     ['histories', 'fault_sequences'], 'every history of creating, replacing, breaking and removing files in the directories of the path, loads and renderings',
     'Stale or lost templates show only after particular sequences of file changes and loads; the tests load a file once or twice.',
     [LOAD, TPL], [('cache and reload', 'loader.py FileLoader.import_, Loader.import_'), ('search', 'loader.py FileLoader._filename, PackageLoader._filename')],
     ['identity and output of the templates returned by load() and import_()'], [('cache', 'templates by name', 'loader.py modules'), ('timestamps', 'file and time compiled', 'loader.py _timestamps')],
     technique='TLA+ machine of a loader over changing files (Loader.tla): histories covering every transition of its state graph (LoaderGen.tla) replayed on real loaders over scratch directories, random long histories recorded and validated by TLC (LoaderTrace.tla)',
     note='All transitions of the state graph for one name in two directories, and for two templates that depend on each other; sampled longer histories with up to four names, three directories, two loaders, FileLoader and PackageLoader.')
prop('C11', 'A loader can be used by several threads while files change',
     'Loads made by any number of threads, while template files are replaced and removed at any moment, behave as if each one looked at its file at one moment between its call and its return: no load fails unless the file is missing or broken at that time, a template is never older than the call, one version of a file gives one template, and once things are quiet the loader gives the current template. No load waits for ever.',
     ['schedules', 'histories'], 'every interleaving of the steps of loads in several threads with each other and with changes of the files',
     'Races need a switch of threads or a change of a file between two particular lines; ordinary tests are single threaded.',
     [LOAD], [('locking', 'loader.py FileLoader.import_'), ('time noted before reading', 'loader.py FileLoader._load')],
     ['calls and returns of import_() in threads'], [('lock', 'held while a template is looked up or compiled', 'loader.py _lock')],
     technique='TLA+ model of the locking protocol (LoaderMT.tla) checked by TLC; real threads run under controlled schedules (one interruption after every step, random ones beyond), their calls and returns validated by TLC against the model (LoaderMTTrace.tla)',
     note='Every single interruption of a load at a line of the loader (and at calls in the compiler) for each scenario; random schedules of two or three threads. The steps between lines are the interpreter\'s.')
prop('C19', 'The loader options and file extension decide how a template is compiled',
     'A file loader compiles a file as the kind of template and in the output mode its extension says, unless a mode is forced, which then applies to every file. Automatic escaping of text templates, automatic blocks, stripping of white space, protection of scripts and the encoding of files follow the options of the loader, which those given to a load override for that template; included, imported and extended templates are compiled by the same rules.',
     ['configurations', 'programs'], 'every combination of extension, options of the loader, options of the load and relation between the templates',
     'Options interact; the tests load a few files with default options.',
     [LOAD, XML, TEXT], [('options', 'loader.py FileLoader.__init__, _load'), ('extensions', 'loader.py extension_map')], RENDER,
     technique='TLA+ rules (GenLoader.tla) for how a loader compiles a file, with the machine of template semantics (Render.tla): every combination of options replayed on real loaders over scratch files')
prop('C15', 'Text template tags and escapes consume exactly their own text',
     'In a text template a directive alone on a line (%tag) takes its whole line, a directive in braces takes only itself, {%- and -%} also take the spaces before and after it, a backslash at the end of a line joins it with the next one, and two of them are one. All other characters, per cent signs and braces included, are output as they are, whatever surrounds them.',
     ['inputs', 'programs'], 'every sequence of characters of the template',
     'The scanner works on characters: losing or keeping one too many needs a particular sequence; the tests have about thirty templates.',
     [TEXT, IR], [('scanner', 'text.py _pattern, _Scanner'), ('escapes', 'text.py _unescape_newlines')], RENDER,
     technique='TLA+ specification of the syntax, character by character (TextScan.tla): every short balanced sequence of tokens enumerated by TLC and replayed on the code, longer random ones recorded and validated by TLC (TextScanTrace.tla)',
     note='Exhaustive up to four tokens (five in thorough) over an alphabet of 24, sampled up to about forty. Empty lines before a directive, missing and unmatched directives are left unspecified.')
prop('C18', 'Dollar expressions are recognised exactly; anything else is literal',
     'In text and attributes $name.name outputs the value of the longest such name, ${...} the value of the Python expression that ends at its matching brace (braces inside strings and displays do not count, and what follows it does not matter), and $$ a dollar sign. In XML templates any other dollar sign is literal, in text templates it is an error. A braced expression that is malformed or not terminated is an error, never silently dropped or shortened.',
     ['inputs'], 'every sequence of characters, in text, attributes, CDATA sections, scripts and text templates',
     'The end of an expression depends on everything after the dollar sign; the tests have about twenty strings.',
     [XML, TEXT], [('XML', 'xml_template.py _TextCompiler'), ('text', 'text.py _Scanner._get_braced_expr')], RENDER,
     technique='TLA+ specification of the dollar syntax with a small grammar of Python expressions (Dollar.tla): every string up to a bound enumerated by TLC and replayed in six places of templates, longer random strings recorded and validated by TLC (DollarTrace.tla)',
     note='All strings of up to five characters (six in thorough) over an alphabet of eight, sampled up to about forty characters over a larger one. Expressions outside the grammar claim nothing.')
prop('C21', 'Malformed templates are refused, naming the file and the line',
     'A template that is not well formed, or has an invalid expression, a directive with invalid code, a py:else without py:if or something else than cases in a py:switch is refused when it is compiled and never rendered. For XML errors and for the mistakes Kajiki itself finds the exception carries the name of the file and the line of the mistake, and its message shows that line, whatever precedes it in the template.',
     ['inputs', 'programs'], 'every kind of mistake at every place of every template',
     'The line reported depends on everything before the mistake; the tests check a few mistakes in one place each.',
     [XML, TEXT, TPL], [('errors', 'xml_template.py XMLTemplateError'), ('expressions', 'xml_template.py _TextCompiler._get_braced_expr'), ('source positions', 'xml_template.py _Parser')],
     ['exceptions raised by XMLTemplate(), TextTemplate() and load()'],
     technique='TLA+ machine (Malformed.tla) that writes a document piece by piece, counting lines, and slips in one mistake: every combination of prolog, surroundings, preceding pieces and mistake is replayed on the compiler',
     note='Exhaustive over 43 mistakes, 10 surroundings, 6 prologs and the piece before (a quarter of the combinations in quick, all in thorough), a part of the pairs of pieces before.')

prop('C22', 'Names mean their innermost binding, then the context, then built-ins',
     'A name in an expression or in code means the variable of the innermost function, loop, py:with, py:call body or assignment around it that binds it; failing that a function of the template, the value in the context (also when that value is None, empty or false, and when Python has a built-in of the same name), a name of module level code, or a built-in. A name that has none of these raises NameError, never silent output. defined() and value_of() report exactly the names of the context, the functions and the module level code, and value_of() gives its default for all others.',
     ['programs', 'inputs'], 'every way of binding a name, against every place that reads it, in pages, functions, blocks, included, imported and extended templates',
     'Scoping errors show only for one combination of binding and reading; the tests have a few of the combinations.',
     [TPL, IR, XML, TEXT], [('globals of an instance', 'template.py _Template.__init__'), ('scopes of the generated code', 'ir.py')], RENDER)
prop('C23', 'Code blocks run as the Python that is written, where it is written',
     'A block of Python code in a template (<?py ?>, %py) does what the same Python does: its statements run in order, once each time the place where they are written is reached, with their strings, indentation, blank lines, comments and line continuations as written, and the names they assign are available to what follows in the same function. Code before the root of an XML template runs first. Code marked with % runs at module level and its names are available everywhere in the template.',
     ['programs', 'inputs'], 'every sequence and nesting of statements, however indented and spelled, in every place of XML and text templates',
     'Re-indenting and copying code breaks only for particular contents of strings, indentation or places; the tests have a few one-line blocks.',
     [IR, XML, TEXT], [('code nodes', 'ir.py PythonNode'), ('XML processing instructions', 'xml_template.py _compile_pi'), ('text blocks', 'text.py _parse_py')], RENDER)

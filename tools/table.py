prop('C01', 'Ids do not depend on the order of what has no order',
     'The id, the positional id, the string form and the flattened keys and values of a configuration are the same '
     'whatever order its parameters were inserted in, and so are the texts produced for dictionaries, sets and frozensets, '
     'and for instances of classes derived from them. The texts of lists, tuples and ordered dictionaries, on the contrary, do follow the order of their elements.',
     ['inputs', 'histories'], 'all configurations and collections, all insertion and iteration orders',
     'Tests build a few dictionaries in one order; set iteration order also changes with the hash seed, so a handful of runs '
     'cannot cover the orders.',
     [W, PL], [('configuration sorted by unique key', W + ': What.id, What.flatten'),
               ('rendered elements sorted', PL + ': dict_plugin, set_plugin')],
     'Order rule: an unordered source reaches a result only under a sort whose key cannot tie.')
prop('C03', 'Non-identifying parameters stay out of ids unless asked for',
     'Parameters declared as non-identifying appear in no id, positional id, key or value listing, nested id or '
     'dictionary form of a configuration unless the caller asks for them, and then all of them do; every other parameter '
     'always appears. Arguments excluded when decorating a function count as declared. The declaration is honoured wherever one can be made: a configuration, the inference of one from an '
     'object or function, and the decorator of functions, classes and objects.',
     ['inputs', 'configurations'], 'all configurations, all sets of non-identifying names, every entry point',
     'Tests check single hidden names at a few entry points; the statement is about every subset of names at all of them.',
     [W, PL, U], [('filter on non id keys', W + ': What.id, What.flatten'), ('declared names kept', W + ': What.__init__, whatareyou, whatable')])
prop('C04', 'Identifying, comparing and printing never modify anything',
     'Computing ids, comparing, hashing, printing, flattening, querying, copying, rendering values and inferring '
     'configurations never modifies the configuration, the object identified, the arguments, nor any state of the library. '
     'The same goes for sorting, matching and extending collections of configurations or ids.',
     ['inputs', 'histories'], 'all configurations and objects, every read-only operation',
     'Tests look at results; a modification of an argument or of shared state shows up only in a later, unrelated operation.',
     [W, PL, U, M], [('reading operations', W + ': What'), ('copies before changes', U + ': whatadd, whatid2columns; ' + M + ': trim_dict')],
     'Effect rule: no write reaches an object that existed before the call.')
prop('C05', 'Copies equal the original and are independent of it',
     'A copy of a configuration, shallow or deep, has the same name, parameters, non-identifying names and output name as '
     'the original. Adding, replacing or removing parameters or non-identifying names of either never changes the other, and '
     'a deep copy shares no mutable value with the original; setting a parameter on a copy leaves the original as it was, and '
     'otherwise changes the configuration itself.',
     ['inputs', 'histories'], 'all configurations, all sequences of copies and changes',
     'Tests copy one configuration and change one key; sharing shows up only for particular fields and changes.',
     [W], [('copy of the dictionary and of the names', W + ': What.copy, What.__init__'), ('copy before set', W + ': What.set')])
prop('C08', 'Every kind of value is rendered by the right rule',
     'Configurations and whatable objects are rendered by their id, whatever else they are; strings are single quoted with '
     'quotes escaped; lists, tuples, dictionaries and sets show every element in their python notation, their subclasses the '
     'same under the name of the class; functions and partials show their name and known parameters; random generators their '
     'whole state; any other object its string form, or just the name of its class when that form contains a memory address. The first renderer of the chain '
     'that gives an answer, even an empty one, decides.',
     ['inputs', 'programs'], 'all values of the supported kinds and all their subclasses',
     'Tests render some values of each kind; precedence between kinds (a whatable list, a str subclass) is sampled sparsely.',
     [PL, W, M], [('ordered chain of renderers', PL + ': WhatamiPluginManager')])
prop('C09', 'Edits of the renderer chain are exact, atomic and reversible',
     'Inserting a renderer puts it exactly before the requested one (by default before the capture-all ones, at the end when '
     'asked), dropping removes just it, resetting restores the shipped chain, and the chain in force is the one used for '
     'rendering. A refused edit (unknown or repeated renderer) changes nothing, and chains obtained before an edit never change.',
     ['histories', 'inputs'], 'all sequences of insertions, drops and resets, valid or refused',
     'Tests exercise one insertion, one drop and one reset; the statement is about all sequences of edits.',
     [PL], [('immutable chain replaced on each edit', PL + ': WhatamiPluginManager.insert, drop, reset')])
prop('C13', 'A registry of nicknames is always one to one',
     'After any sequence of registrations, removals and resets, accepted or refused, each id has at most one nickname, each '
     'nickname at most one id, and both directions agree. A registration that would break this, and a removal that does not '
     'name one existing entry, are refused without changing anything; removals take both directions away.',
     ['histories', 'inputs'], 'all sequences of operations on a registry, all ids and nicknames, equal or not',
     'Tests run one short history with fixed names; agreement must hold after every history and every refusal.',
     [R], [('checks before both writes', R + ': WhatamiRegistry.register'), ('both entries deleted', R + ': WhatamiRegistry.remove')],
     'Bounded to histories of up to four operations on a fresh registry, over symbolic ids and nicknames.')
prop('C22', 'Ids over the maximum length become the sha1 of the whole id',
     'When an id or a positional id of a configuration is asked for with a positive maximum length, it is the whole id when '
     'that has at most so many characters, and otherwise the hexadecimal sha1 digest of the utf-8 encoding of the whole id, '
     'output name included (for ids that can be so encoded). A maximum of zero or less never shortens, and is the default. '
     'The ids of nested configurations are never shortened on their own.',
     ['inputs', 'configurations'], 'all configurations, all maximum lengths, every form of id',
     'Tests shorten one id at one length; the boundary, the text hashed and the forms of id vary together.',
     [W], [('one place decides and hashes', W + ': What._trim_too_long'), ('shortening last', W + ': What.id, What.positional_id')])
prop('C24', 'Configurations compare and hash by name, output name and parameters',
     'Two configurations are equal exactly when their names, output names and parameters are equal; their non-identifying '
     'names play no part. Inequality is the negation, comparison is symmetric, and equal configurations have equal hashes, '
     'also when parameters are unhashable and after their non-identifying names change. Comparing with anything that is not '
     'a configuration gives False instead of an error.',
     ['inputs'], 'all pairs of configurations, all other objects',
     'Tests compare a few pairs; equality must agree with hashing for every pair, including nested and unhashable values.',
     [W], [('comparison', W + ': What.__eq__'), ('hash', W + ': What.__hash__')])
prop('C25', 'The parameters inferred are exactly the attributes asked for',
     'The configuration inferred from an object holds its instance attributes, slots and properties (inherited ones included), '
     'and its class attributes when asked for, each with the value the object has, except those whose name has the excluded '
     'prefix or postfix or is explicitly excluded, and the contents of lists, tuples, dictionaries, sets and frozensets and of '
     'instances of classes derived from them; slots that are not set, and each kind whose option is off, are left out. Decorating again puts the last options in force. Every option has the same '
     'effect whether given to whatareyou or to whatable used on a class, on an object, or as a decorator.',
     ['inputs', 'configurations'], 'all objects of the kinds of class analysed, all combinations of options, every entry point',
     'Tests use one option at a time at one entry point; an option lost on one path shows only with that combination.',
     [W, M], [('kinds of attribute', M + ': config_dict_for_object'), ('trimming', M + ': trim_dict'),
              ('options forwarded', W + ': whatareyou, whatable')],
     'Classes analysed: plain, with slots, with properties, with class attributes, derived from one another.')
prop('C07', 'Decorated functions behave as the originals and gain just a what',
     'Making a function or partial whatable returns a callable that, for any arguments, calls the original exactly once with '
     'those arguments and returns its result or raises its exception, and that keeps its name, docstring, module and '
     'attributes; the original is left untouched, unless modifying it in place is asked for, and then it only gains its what. '
     'That what names the function and its known parameters (defaults and values fixed by partials), anew each time. '
     'Wrappers already decorated are looked through; keyword-only parameters are not covered.',
     ['inputs', 'programs'], 'all functions and partials of the signatures analysed, all arguments, all options of whatable',
     'Tests call a few decorated functions; the wrapper must be transparent for every argument, result and exception.',
     [W, M], [('wrapper of functions', W + ': whatable'), ('signature inspection', M + ': callable2call')])
prop('C16', 'Arguments that are iterated are read once and whole',
     'Wherever the library takes an iterable (non-identifying names, excluded names, ids or configurations to sort or match, '
     'keys to ignore, values or columns to add, ids, column values and postprocessors of records), a generator or iterator '
     'gives the same result as a list with the same elements, in the same order, also when the result is asked for repeatedly.',
     ['inputs', 'histories'], 'all iterables, at every place that takes one',
     'Tests pass lists and tuples almost everywhere; an argument read twice is silently empty the second time.',
     [W, U, M, R], [('arguments listed once', U + ': sort_whats, sort_whatids, match_whatids; ' + R + ': Recorder.add'),
                    ('sets of names', W + ': What.__init__; ' + M + ': trim_dict')])
prop('C26', 'whatable gives a what and changes nothing else, or refuses',
     'whatable gives a what to classes, objects and functions, returns the same class or object, and changes nothing else; it '
     'refuses, with an exception and without changing anything, when there is already a what that is not a whatami one '
     '(unless forced), for builtins, and for objects that cannot hold it. whatamize_object replaces an existing what, '
     'own or inherited, only when forced. is_whatable gives a boolean and never raises: True exactly for what can give a '
     'configuration by calling its what without arguments (or classes flagged as such).',
     ['inputs', 'programs'], 'all classes, objects and functions of the kinds analysed, all their previous whats, all options',
     'Tests whatamise a few classes; the refusals, the flags and the inherited whats combine in many ways.',
     [W, U], [('checks before changes', W + ': whatable'), ('guarded probing', W + ': is_whatable'),
              ('forced replacement', U + ': whatamize_object')])
prop('C06', 'Each configuration asked for is new, and owned by who asked',
     'Each configuration asked for, by what(), whatareyou, obj2what, FunctionLike or parsing, is a new one: changing its '
     'parameters, names or non-identifying names changes neither the ones given later nor the object, function or partial '
     'described, nor the names passed in. Later changes of the object show in the configurations asked for afterwards, and '
     'in no earlier one. Whats that a user supplies themselves, and the values of parameters, are shared.',
     ['histories', 'inputs'], 'all sequences of asking, changing the answer, changing the object and asking again',
     'Tests ask once or twice and do not change what they get; a dictionary or set shared with a cache shows only then.',
     [W, M], [('fresh dictionaries', W + ': What.__init__, whatareyou, whatable'), ('snapshot', M + ': call2what, callable2call')])
prop('C18', 'sklearn estimators tell their parameters under their declared names',
     'A whatamized sklearn estimator tells get_params(deep=False) as its configuration (its attributes when it has no get_params), '
     'under the short name declared for exactly its class, or the class name when none is declared or short names are not wanted, '
     'with the declared non-id parameters and no others, at the time of asking. Declarations are those made for the installed '
     'sklearn version, else those for the closest older supported one. In them names are unique, and n_jobs and verbose, but no '
     'parameter that decides what is learnt, are non-ids; whatamize_sklearn reaches each base that can be imported and keeps what() methods already there.',
     ['inputs', 'programs', 'configurations'], 'all parameters and names, estimators with and without get_params, declared and not, all sklearn versions of a grid, all the declarations',
     'No test can import sklearn here, and a wrong entry among two hundred declarations shows only in the ids of one estimator.',
     [SK, U], [('configuration of an estimator', SK + ': _what_for_sklearn'), ('declarations', SK + ': _a, _declare0dot15dot1, _declare0dot19dot1'),
               ('choice of declarations', SK + ': _declare_id_nonid_attributes'), ('bases', SK + ': whatamize_sklearn')],
     'sklearn itself is not analysed: estimators are those of the scenarios, parameters are a table taken from the signatures of 0.20.4.')
prop('C19', 'Keys, values, lookups and updates of configurations agree',
     'For any options, the keys and the values of a configuration come in the same, sorted, order, one value for each key, and '
     'looking a key up gives its value, at any depth of nesting. Non-identifying parameters are listed only when asked for. '
     'Looking up what is not there raises KeyError, or gives the default with get; set changes exactly the parameter '
     'addressed, in the configuration itself, or in a copy that leaves the original as it was.',
     ['inputs', 'configurations'], 'all configurations, nested to the bounded depth analysed, all keys and options',
     'Tests look up a few keys of one configuration; listing, lookup and update must agree at all of them.',
     [W], [('listings', W + ': What.keys, What.values'), ('lookup', W + ': What.__getitem__, What.get'), ('update', W + ': What.set, What.copy')])
prop('C27', 'Dictionaries made from ids hold the whole configuration',
     'id2dict and to_dict give a dictionary with the name, the output name and all the parameters of a configuration, where '
     'the configurations nested in it, also inside lists, tuples and dictionaries to any depth, have been replaced by such '
     'dictionaries too; every other value, and the kinds and order of the collections, are as parsed (keys of dictionaries are not converted). to_dict describes the '
     'whole id, never shortened, with non-identifying parameters when asked for. Each dictionary given is new.',
     ['inputs', 'configurations'], 'all configurations, nested in any of the ways analysed',
     'Tests convert one configuration; nesting can place a configuration at any depth, where the conversion may miss it.',
     [U, W], [('recursive conversion', U + ': id2dict'), ('of the whole id', W + ': What.to_dict')],
     'Nesting bounded to the shapes analysed (four levels). Sets and keys of dictionaries are not looked into.')
prop('C20', 'Hashes of arrays and values tell apart what differs and only that',
     'Two values get the same hash when they are equal part by part, whatever the order in which their dictionaries and sets were '
     'filled, whether equal texts in them are one object or two, and whatever was hashed before; they get different data to hash when an element '
     'of an array, its type, shape, memory layout or class differs, or any item, key, type or attribute of a value, bound method, '
     'class or function does. Hashing modifies nothing. Arrays, frames and series are shown as class name and md5 hash of the whole.',
     ['inputs', 'histories'], 'all elements and attributes, arrays of every layout up to four elements, containers to depth three',
     'Tests compare a handful of hardcoded hashes; a collision or a dependence on insertion order shows in none of them.',
     [H, PL], [('data hashed for arrays', H + ': NumpyHasher.save'), ('order of sets and dictionaries', H + ': _ConsistentSet, Hasher._batch_setitems'),
               ('methods', H + ': Hasher.save'), ('texts', H + ': Hasher.memoize'), ('texts of arrays', PL + ': numpy_plugin, pandas_plugin')],
     'numpy, pickle and hashlib are models: arrays with the layouts named, a pickler that writes tokens, digests that do not collide. '
     'Lists shared inside a value are told from equal lists that are not, as in joblib; the elements of sets are constants.')
prop('C21', 'Sorting, matching and tabulating ids agree with their values',
     'sort_whats and sort_whatids give all elements in the order of the values of the keys (ties as given), with those values. '
     'match_whatids gives, in order, exactly the ids with the name, keys and (but for ignored keys and what is nested in '
     'them) values of the template. whatid2columns adds a column for each parameter asked for, with the value of each row or '
     'None, to the dataframe or to a copy, and touches nothing else; whatadd gives an id per value, leaves its configuration as '
     'it was, and refuses keys already there; whatvalues gives values in the order of keys, or KeyError.',
     ['inputs', 'configurations'], 'all configurations and ids of the shapes analysed, with symbolic names and values, all options',
     'Tests use a single list of ids; duplicates, ties, missing and nested keys and columns of equal names are not tried.',
     [U], [('sorting', U + ': sort_whats, sort_whatids'), ('matching', U + ': match_whatids'), ('columns', U + ': whatid2columns'),
           ('adding', U + ': whatadd')],
     'The dataframe is modelled by a small class with the operations used. Parsing itself is not looked into.')
prop('C23', 'Parameters found for calls, functions and partials are those they get',
     'callable2call gives the name of the function and its known parameters: defaults, overridden by what partials (nested to '
     'any depth, positional arguments in the order of the call, later keywords over earlier) fix; it refuses parameters the '
     'function has not or gets twice, too many arguments, and what cannot be called. call_dict gives exactly the parameters of '
     'the call at the depth asked, with overrides (keyword ones first) over what was passed, without ignored names; call2what the '
     'locals; required arguments are those without default. Keyword-only parameters and *args are not covered.',
     ['inputs', 'programs'], 'all functions and partials of the signatures analysed, all argument values, all options',
     'Tests inspect a few functions; order and precedence of arguments show only when partials are nested or names meet.',
     [M, U], [('partials folded in call order', M + ': callable2call, curry2partial'), ('frames', M + ': call_dict; ' + U + ': call2what'),
              ('required arguments', M + ': required_args, ensure_has_positional_args, init_argspec')])
prop('C10', 'Ids read back as configurations equal to those they came from',
     'Reading the id of a configuration back with id2what gives a configuration of the same name, output name, parameters '
     'and id. Parameters can be None, booleans, numbers, infinities, strings, lists, tuples, dictionaries, sets, frozensets and '
     'configurations, nested in any way, and come back with their types; names can be any ASCII identifier, also those like '
     'literals (None, inf, nan...). Not covered: strings with backslashes or quotes, subclasses, configurations named set or frozenset.',
     ['inputs', 'configurations'], 'all configurations of the shapes analysed, with any names, strings and numbers in them',
     'Tests read some thirty ids back; a grammar misreads only particular names, nestings or neighbours of a value.',
     [W, PA, PL], [('grammar', PA + ': build_whatami_parser'), ('values of the tree', PA + ': WhatamiTreeVisitor'), ('ids', W + ': What.id')],
     'Nesting bounded to the shapes analysed (three levels, all pairs of kinds). Names, strings and numbers are symbolic.')
prop('C11', 'Texts are read as the notation says, and others are refused',
     'id2what reads exactly the texts of the form [out=]name(key=value,...), with the values of the literal, collection and '
     'nested id notations; whitespace between symbols makes no difference, the order of keys neither. Any other text raises '
     'NoMatch: missing or extra parentheses, commas, names, values, quotes, or anything before or after the id. Strings hold '
     'everything between their quotes as it is; reading one id never depends on those read before.',
     ['inputs', 'histories'], 'all texts of the forms analysed, with any names, strings and numbers in them',
     'Tests refuse half a dozen texts; a laxer grammar still reads all that is right.',
     [PA], [('grammar', PA + ': build_whatami_parser'), ('parsing', PA + ': parse_whatid'), ('values', PA + ': WhatamiTreeVisitor')],
     'Decided on a fixed list of forms with symbolic parts, not on all texts.')
prop('C12', 'Old ids are read, and brought to the new notation',
     'oldid2what reads ids of the old notation (name#key=value#...; nested ids in double quotes) as the configurations they '
     'described, quoted or not, with the same values for every kind of parameter as the new notation; an output name before it '
     'becomes the parameter out (ValueError if there is one already). id2whatami4 gives the '
     'new id of those, and gives texts that are not old ids back as they are, new ids among them. The new notation is not '
     'affected by the old one, nor the other way around.',
     ['inputs', 'configurations'], 'all old ids of the forms analysed, with any names, strings and numbers in them',
     'Tests convert a few ids kept from an old release; other values and nestings are never read.',
     [PA, U], [('old grammar', PA + ': build_oldwhatami_parser'), ('conversion', U + ': oldid2what, id2whatami4')],
     'Nesting bounded to the shapes analysed.')
prop('C14', 'Adding records adds all of them or none, and replaces none',
     'One call of Recorder.add adds all its records or none: it is refused, leaving the recorder as it was, when an id is '
     'there already or twice in the call, when a column would replace the id column, and when the extraction of an id or a '
     'postprocessor raises, for whichever record. Records are never replaced or lost, not even those postprocessors add; ids are unique; '
     'len, get, [], unique and to_df agree with what was added, in order of insertion; postprocessors see the recorder as it was before '
     'the call. Falsy ids and records count as any others; a recorder whose id column is not named by a string is refused.',
     ['histories', 'inputs'], 'all sequences of calls of add, accepted or refused, with any ids',
     'Tests refuse a duplicated id once; a partial insertion shows only when a later record of the same call fails.',
     [R], [('checked and collected before any is added', R + ': Recorder.add'), ('reading', R + ': Recorder.get, Recorder.unique')],
     'Bounded to histories of up to four calls, of up to seven records each, over symbolic ids. to_df is decided up to what is asked from a model of pandas.')
prop('C15', 'Records hold what was given, and recorders share nothing',
     'Each record has its id, the columns given to add (by id for dictionaries, one each for iterables when unboxing, the same '
     'for all otherwise), and defaults only for columns not given to it, None and falsy values being values (None too where an iterable runs out); then go through '
     'the postprocessors of the recorder and of the call, in order, or only the latter when overriding. Calls frozen by curry '
     'or padd keep what they froze, later values over earlier. Recorders, calls and what they were given are independent.',
     ['inputs', 'histories'], 'all calls of add and combinations of forms of columns, defaults, postprocessors and frozen calls',
     'Tests try each form once; precedence and sharing show in combinations of defaults, frozen calls and several recorders.',
     [R, M], [('columns by id', R + ': Recorder._params2dict, _DefaultDict'), ('defaults and postprocessors', R + ': Recorder.add'),
              ('curried in all subclasses', M + ': decorate_some, ensure_has_positional_args')],
     'The curry of toolz is modelled. Mutable values (of columns or defaults) are shared by the records they were given to.')
prop('C17', 'Optional libraries fail on use, not on import; packages import whole',
     'maybe_import gives the first of its variants that can be imported (the library itself only when there are no variants), '
     'or else, raising nothing, an object that raises ImportError at every access to an attribute, telling the library, what was tried '
     'and how to install it. maybe_import_member and whatamize_object by name raise that error or, if asked not to fail, give None '
     'and do nothing; import_submodules imports the package, its modules and those of its subpackages and no others, '
     'by their full names, raising the first ImportError only if asked to. Without numpy or pandas, everything else gets the same id.',
     ['environments', 'inputs'], 'all subsets of modules that fail to import, and all ways of naming variants',
     'Tests run where the libraries are installed, and import one package that has no failing modules.',
     [M, PL, U], [('import or tell later', M + ': maybe_import, _LazyImportError'), ('guards', PL + ': has_numpy, has_pandas'),
                  ('traversal', M + ': import_submodules')],
     'Imports are those of a modelled tree of packages. Errors other than ImportError are passed on.')
prop('C28', 'What objects tell of themselves goes before looking at them',
     'what2id gives None for None, texts as they are, else the id of what the object tells by its method what, else what its '
     'method id gives, else the id inferred; attributes that cannot be called, or methods of instances seen from their class, '
     'tell nothing, and errors other than a missing attribute are not hidden. obj2what gives the very configuration a whatable '
     'tells unless forced to inspect it, and otherwise what whatareyou infers with the same options, each of them heeded. '
     'FunctionLike objects tell their class name and current attributes; descriptions of experiments use the ids of their parts.',
     ['inputs', 'programs'], 'all values of the attributes and options, all combinations of kinds of what and id members analysed',
     'Tests try one object of each kind; precedence shows when an object has several or odd members.',
     [U, M, W], [('order of the ways to tell', U + ': what2id'), ('options handed over one by one', U + ': obj2what'),
                 ('mixin', U + ': FunctionLike'), ('experiments', M + ': mlexp_info_helper')],
     'Names of the classes and members are those of the scenarios; dates and host names are not covered.')
prop('C29', 'Helpers that look at code tell what is there',
     'decorate_some decorates the members asked for in the class and in each subclass that defines them, once, in order, leaving '
     'other members, inherited ones and other classes alone. is_iterable says whether iter accepts the value, consuming nothing; '
     'fqn gives module and qualified name of the object or its class; all_subclasses gives all the classes derived, at any depth, '
     'and no others. is_closure tells functions that capture variables; the decorated function is extracted only from closures '
     'over just a function that have a what.',
     ['programs', 'inputs'], 'all values in hierarchies and closures of the shapes analysed, and all kinds of values',
     'Tests decorate one class and one override; order and repetition show with several decorators and deeper hierarchies.',
     [M], [('metaclass', M + ': decorate_some'), ('helpers', M + ': is_iterable, fqn, all_subclasses, is_closure, extract_decorated_function_from_closure')],
     'Hierarchies bounded to those analysed. Decorators are functions that only call what they decorate.')
prop('C02', 'Ids tell the current values, not those asked for before',
     'Ids, positional ids, string forms and listings of keys and values are those of what the configuration is when they are asked '
     'for: after any change to its name, output name, parameters, non-identifying names, or to any list, dictionary, set, object '
     'or configuration inside it, they are those of a new configuration with the same parts. Nothing rendered or asked for before '
     'has a say: neither values that are equal but not the same (1, True and 1.0; 0.0 and -0.0; objects telling they are equal), '
     'nor other lengths or options, nor renderers since replaced, nor functions or classes of the same name.',
     ['histories', 'inputs'], 'all values before and after each kind of change, all orders of asking for equal values',
     'Tests ask for each id once, in new objects; a stale or shared answer shows only with a history of previous questions.',
     [W, PL, U, M], [('rendered anew each time', W + ': What.id, What.positional_id, What.flatten'),
                  ('first renderer with an answer', PL + ': WhatamiPluginManager.build_string, insert, drop'),
                  ('inspection anew each time', U + ': whatareyou, what2id')],
     'Changes are those of the histories analysed, each with arbitrary values; threads are not considered.')

# ------------------------------------------------------------------------------------------------ model
prop('P10', 'Choices keep their order of insertion and arrays follow it',
     'The choices of a model are listed in the order they were added, the elemental choices are exactly the nodes without '
     'children in that same order, and the arrays that describe the tree to the nested computations (parents, levels, scales, '
     'which nodes are at the bottom) hold, at the position of each choice, the data of that choice. Every node is identified '
     'by its place in the tree, so nodes of the same name in different nests are never confused.',
     ['inputs', 'configurations'], 'every tree: any depth, any order of adding nodes, repeated names in different nests',
     'Tests use two or three trees whose nodes are added nest by nest with unique names.',
     [('listing of choices', f'{MODEL} ChoiceModel.choices, elemental_choices, depth'),
      ('tree arrays', f'{MODEL} ChoiceModel._flatten'), ('identity of nodes', f'{API} ChoiceNode.nested_id, full_name')],
     f'symbolic comparison of iteration orders and positions ({VF})')
prop('P11', 'Results carry the label of the alternative and record they belong to',
     'Every table and series returned by a run is labelled with the decision units; probabilities and nested logsums have the '
     'choices they belong to as columns; every sampled position is returned as the label of the choice at that position '
     '(or as the position itself only for astype="index"), for every draw and every dtype, in flat and nested models. A '
     'single draw is squeezed to a Series only if there is one draw. The debug record is the one asked for.',
     ['inputs', 'configurations'], 'every dtype, number of draws, squeeze flag, tree and index of decision units',
     'The combinations of dtype, draws, squeeze and depth multiply; tests check a few.',
     [('conversion of samples', f'{MODEL} ChoiceModel._convert_result'),
      ('stochastic results', f'{MODEL} ChoiceModel.run_stochastic, _build_nested_stochastic_frame'),
      ('debug results', f'{MODEL} ChoiceModel._evaluate_utilities')],
     f'provenance of data, index and columns of constructed frames ({VF})')
prop('P12', 'NaN utilities are always reported, never turned into results',
     'Whenever any cell of the utility table is NaN after the expressions of a run (or of a pre-evaluated group) have been '
     'evaluated, a UtilityBoundsError is raised: before any probability, sample or logsum is computed, and before the table '
     'is kept for later runs. The check covers every cell, whatever the sign, number or place of NaN values, and whatever '
     'other options (debugging, logging, logit type, threads) are set. Nothing replaces NaN values before the check, and the '
     'table is not changed between the check and its use.',
     ['inputs', 'configurations'], 'every utility table and every option of a run',
     'The check has to dominate every use of the table on all paths; tests try one NaN.',
     [('check', f'{MODEL} ChoiceModel._evaluate_utilities'),
      ('uses of the table', f'{MODEL} ChoiceModel.run_discrete, run_stochastic, preval')],
     f'dominance of a checked condition over every use of the evaluated table ({VF})')
prop('P13', 'An incomplete model is refused before anything is evaluated',
     'run_discrete, run_stochastic and preval raise ModelNotReadyError, before any expression is evaluated, if the model has '
     'fewer than two choices, a nest with a single child, no decision units, or an expression that uses a symbol which is '
     'not declared or not filled; validate() reports the same, for the parts asked for. A symbol counts as filled exactly '
     'when data was assigned to it, so that an emptied symbol is not filled; every symbol of every expression that will be '
     'evaluated is checked, simple or chained, grouped or not.',
     ['inputs', 'history'], 'every tree, scope and set of expressions; any order of assignments and clearing',
     'The conditions combine over trees, groups and symbol kinds; tests check few of them.',
     [('readiness', f'{MODEL} ChoiceModel.validate'), ('filled', f'{API} NumberSymbol/VectorSymbol/TableSymbol/MatrixSymbol'
       '.filled, empty'), ('symbols of expressions', f'{API} ExpressionGroup.itersimple, iterchained')],
     f'conditions under which the evaluation is reached, compared with the stated ones ({VF})')
prop('P14', 'Utilities are the sum of the expressions, each evaluated once',
     'The utility table of a run is the partial utilities plus the value of each expression of the model (or of the group '
     'asked for), each expression being evaluated exactly once, whole, and added to what is there. An expression with a '
     'filter changes the column of that choice and no other. The names of an expression are the data of the symbols of the '
     'same name, its dict literals and its own lookups; nothing of one expression leaks into another. The containers keep '
     'every expression added, once, in the group given, also when copied or added together; pre-evaluated utilities are kept '
     'and their group is not evaluated again.',
     ['inputs', 'configurations', 'history'], 'every set of expressions, filters, groups, symbols',
     'Expressions, filters, groups and symbol kinds combine; tests use a few expressions.',
     [('evaluation', f'{MODEL} ChoiceModel._evaluate_utilities, _kernel_eval, _make_column_mask'),
      ('groups', f'{API} ExpressionGroup, ExpressionSubGroup'), ('pre-evaluation', f'{MODEL} ChoiceModel.preval')],
     f'provenance of everything that is evaluated and of what it is written to ({VF})')
prop('P04', 'Data handed to the package is never changed by it',
     'No function of the package changes the arrays, tables, indices, lists or dicts that are passed to it, nor the data a '
     'model or a table holds on to: evaluation, sampling, aggregation, linking, slicing and assignment leave every argument '
     'and everything reachable from it as it was. What a function returns does not share memory that a later call of it '
     'would write to, and the only memory ever written by the numerical functions is what they allocated themselves or '
     'were given to write their results to.',
     ['inputs', 'history'], 'every public function, whatever the layout, dtype and sharing of its arguments',
     'Whether an array is shared depends on dtypes and contiguity (views or copies); tests compare a few results.',
     [('kernels', f'{CORE}'), ('symbols', f'{API} VectorSymbol, TableSymbol, MatrixSymbol assign and _get'),
      ('utilities', f'{MODEL} ChoiceModel._evaluate_utilities'), ('tables', f'{LDF} LinkedDataFrame')],
     f'effect analysis: the memory each in-place write can reach, through views and aliases ({VF})')
prop('P15', 'Runs and reads leave the model as it was',
     'Running a model, validating it or reading any of its properties does not change it: the tree, the expressions, the '
     'decision units and the partial utilities are the same afterwards, so that the same run again gives the same result, '
     'and the data of symbols is removed only if that was asked for. The only things a run may leave behind are the debug '
     'results and values that are remembered for the tree and units they were computed from. No state is kept outside the model.',
     ['history'], 'every sequence of runs, reads and pre-evaluations',
     'Effects of an earlier run on a later one only show in particular sequences; tests run a model once.',
     [('runs', f'{MODEL} ChoiceModel.run_discrete, run_stochastic, preval, validate'),
      ('partial utilities', f'{MODEL} ChoiceModel._evaluate_utilities, _partial_utilities'),
      ('reads', f'{API} ExpressionGroup, ChoiceNode, AbstractSymbol')],
     f'effect analysis of every in-place write and attribute assignment reachable from a run ({VF})')
prop('P16', 'Changing choices or units discards what belonged to the old ones',
     'Adding or replacing a choice discards everything that was computed or assigned for the previous set of choices (partial '
     'utilities, remembered columns, data laid out by choices), and setting the decision units discards everything laid out by '
     'the previous decision units. This holds for every kind of symbol, level of the tree and order of calls. Data that does '
     'not depend on what changed is kept.',
     ['history'], 'every sequence of tree changes, unit changes, assignments and pre-evaluations',
     'Stale data shows only when a model is changed between two runs, in particular orders.',
     [('choices', f'{MODEL} ChoiceModel._create_node; {API} ChoiceNode.add_choice'),
      ('decision units', f'{MODEL} ChoiceModel.decision_units'), ('symbols', f'{API} *Symbol.empty')],
     f'must-effect analysis over every path that changes the tree or the units ({VF})')
prop('P17', 'Copies are complete, separate, and cover exactly the rows asked for',
     'copy() takes over the tree and settings and exactly those of decision units, declarations, data, expressions and partial '
     'utilities that are asked for; copy_subset takes over all of them, restricted to the rows of the mask, which must have '
     'the index of the decision units. Each symbol keeps its kind and all settings; data by choices is not restricted. A later '
     'change of a copy (choices, symbols, expressions, partial utilities) does not change the original, nor the reverse.',
     ['inputs', 'configurations', 'history'], 'every combination of options, kind and orientation of symbol, mask',
     'Each of 32 combinations of options by kinds of symbols; sharing shows only after later changes of one of the two.',
     [('copy', f'{MODEL} ChoiceModel.copy'), ('subset', f'{MODEL} ChoiceModel.copy_subset'),
      ('symbols', f'{API} NumberSymbol/VectorSymbol/TableSymbol/MatrixSymbol.copy')],
     f'exhaustive evaluation of the options over symbolic state, comparison of the final heaps ({VF})')
prop('P18', 'Assigned data is checked against the model and laid out by its labels',
     'A value can be assigned only where it fits the model: numbers are numbers; labelled data is accepted only if its labels '
     'equal those of the decision units or of the choices along the declared orientation, and unlabelled data only if it has '
     'their length; tables must have the mandatory attributes, and linked tables are refused where links are not allowed. Data '
     'is stored whole, with its own values and laid out along the declared side; matrices that may be reindexed are placed by '
     'label, missing labels being filled with the declared value, and refused otherwise. Looked-up attributes come from the '
     'column asked for, following the links in the order written, with the aggregation asked for. Partial utilities are added '
     'to the rows and columns of their labels, once, and unknown labels are refused.',
     ['inputs', 'configurations'], 'every kind of symbol, orientation, reindexing option and kind of data',
     'Misaligned data of the right size gives plausible numbers; only labels tell, for each kind and orientation.',
     [('vectors', f'{API} VectorSymbol.assign'), ('tables', f'{API} TableSymbol.assign, _get'),
      ('matrices', f'{API} MatrixSymbol.assign, _get'), ('partial utilities', f'{MODEL} ChoiceModel.partial_utilities; '
       f'{CORE} fast_indexed_add'), ('conversion', 'cheval/utils.py to_numpy, convert_series')],
     f'provenance and path conditions of everything stored ({VF}, labels as symbolic indices)')
prop('P19', 'Every tree and declaration is valid, and refused ones change nothing',
     'Choices enter the tree only with a name that holds no "." and is not "_", and a logsum scale in (0, 1] (also when changed '
     'later); each has the parent, level, name and scale it was added with, is recorded under its full name and with its parent '
     'or model, and is returned. A refused choice leaves the tree as it was. A choice that replaces another removes it and all '
     'of its descendants, and nothing else. add_choices adds every name with its own scale. Precision is 4 or 8, orientations '
     'are 0 or 1, reserved words cannot be declared, and a declared symbol is of the kind asked for with every setting given.',
     ['inputs', 'configurations', 'history'], 'every name, scale, setting and sequence of additions',
     'A quantification over all names, settings and trees; tests build a few valid trees.',
     [('choices', f'{MODEL} ChoiceModel.add_choice, add_choices, _create_node; {API} ChoiceNode.add_choice'),
      ('settings', f'{MODEL} ChoiceModel.precision; {API} ChoiceNode.logsum_scale'),
      ('declarations', f'{MODEL} ChoiceModel.declare_number/vector/table/matrix')],
     f'dominance of checks over tree effects, intervals from path conditions, final symbolic state ({VF})')
# ------------------------------------------------------------------------------------------------ parsing
prop('P30', 'A translated expression means what was written',
     'Every expression that is accepted is translated to one with the same meaning for numexpr: "and", "or" and "not" become '
     'the elementwise operations on all of their operands, chained comparisons become the conjunction of all comparisons of '
     'neighbours, arithmetic and unary operations, functions and constants stay with all of their operands in their places '
     'and each operand is itself translated; names stay and are recorded as symbols, spellings of NaN and None become the '
     'missing value. The parsed expression keeps the text, its translation, all of its symbols, chains, dict literals, filter.',
     ['inputs'], 'every expression over the supported syntax (structural induction: every node with arbitrary operands)',
     'Expressions nest without bound; tests translate a few of them.',
     [('translation', f'{TRANS} ExpressionParser.visit, visit_*'), ('parsing', f'{EXPR} Expression.parse')],
     f'evaluation of the visitor on every node template with arbitrary operands, comparison of trees ({VF}, exact shapes)')
prop('P31', 'Unsupported syntax is refused, supported syntax is not',
     'Syntax that numexpr cannot evaluate with the meaning of Python is refused when the expression is parsed: subscripts, '
     'conditionals, comprehensions, lambdas, sets, f-strings, stars, identity and membership tests, unknown functions, '
     'keyword and star arguments, methods that are not one of the aggregations or have not one argument, attributes of '
     'anything but names. Dict literals have names, strings or dotted names as keys and numbers as values and, like filters '
     '(one per expression), are only accepted in utilities. All documented functions and aggregations are accepted.',
     ['inputs', 'configurations'], 'every class of syntax node at every place of an expression, every mode of evaluation',
     'A quantification over the grammar; whatever is let through gives wrong numbers or late errors.',
     [('refusals', f'{TRANS} ExpressionParser'), ('filters', f'{EXPR} Expression.parse, _split_filter')],
     f'evaluation of the visitor on every class of node, reachability of refusals ({VF}, exact shapes)')
prop('P33', 'Symbols are used consistently, and refused expressions leave no trace',
     'A name is used as a plain symbol or as a table, never both: an expression that uses a name in one way is refused if the '
     'name was used in the other way anywhere before in the same expression or in any expression, grouped or not, of the same '
     'model, whatever the depth of the path and with or without aggregation. An expression that is refused, for whatever '
     'reason, leaves the expressions, groups and recorded symbols as they were. The names that a container '
     'reports are those of its expressions, also when copied or added together. Pre-evaluating a group discards only '
     'symbols that no other expression uses, and no reserved names.',
     ['inputs', 'history'], 'every sequence of expressions and every way to use a name',
     'The order of uses over several expressions and groups multiplies; a leak shows only after a refused expression.',
     [('uses', f'{TRANS} ExpressionParser.visit_name, visit_attribute, __visit_method'),
      ('groups', f'{API} ExpressionGroup.append'), ('clean-up', f'{MODEL} ChoiceModel.preval')],
     f'evaluation of the visitor under every combination of earlier uses, effects before acceptance ({VF}, exact shapes)')
prop('P34', 'Every lookup of an expression gets a name of its own and its own path',
     'Each use of a path (symbol.a.b..., with or without aggregation) in an expression is replaced by a name that no other use '
     'in that expression has, whatever the names of symbols and the number of uses, and its lookup is recorded under that '
     'name with its symbol. Tables and linked frames follow exactly the path that was written, from left to right, and '
     'aggregate with the function that was written over the argument as it was written. No lookup is lost.',
     ['inputs'], 'every path, number of uses and name of symbol (paths up to four links exactly)',
     'Clashes of generated names need particular names and numbers of uses; the reader and the parser are far apart.',
     [('lookups', f'{TRANS} ExpressionParser.visit_attribute, __visit_method'),
      ('names', 'cheval/parsing/expr_items.py ChainedSymbol'), ('readers', f'{API} TableSymbol._get; {LDF} LinkedDataFrame.evaluate')],
     f'parser and reader are evaluated one after the other on paths with symbolic names; injectivity of names ({VF}, exact shapes)')
prop('P35', 'Dict literals add each value to the choices that its key names',
     'A dict literal in an expression keeps every key and number with its sign. It stands for a row over all choices: each '
     'value stands in the column of the choice that its key names (dotted names name nested choices, at any depth), or for a '
     'key that ends in "_" in the columns of all children of that choice but not of the choice itself; all other choices have '
     'zero. Several literals of an expression do not share their rows. Dotted keys are refused in models without nests.',
     ['inputs', 'configurations'], 'every literal with keys up to three levels in models of up to three levels',
     'Keys, levels and the wildcard combine; a value in a wrong column gives plausible probabilities.',
     [('literals', f'{TRANS} ExpressionParser.visit_dict'), ('rows', f'{EXPR} Expression._prepare_dict_literals, _insert_dict_val')],
     f'evaluation of parser and placement over key shapes and numbers of levels ({VF}, exact shapes)')
# ------------------------------------------------------------------------------------------------ linked frames
WIT = 'witness programs: the source is interpreted over them to a value-flow term whose element-wise meaning is compared with the join'
prop('P41', 'A linked lookup gives each row the value of the row its key refers to',
     'For a link without aggregation, frame.link.column gives for each row of the frame the value of that column in the '
     'target row whose key equals the key of the row, or the fill value if there is none, with the index of the frame, for every '
     'kind of key (index, level, column, several of them, in the order given) on either side, also if both sides hold the same '
     'keys in another order. Over several links the keys of each frame lead to the rows of the next, and a missing row '
     'anywhere gives the fill value of the column. Other lookups, other links of the same frames and a link defined again '
     'do not affect each other; the target frames are not changed.',
     ['inputs', 'configurations'], 'every content of the frames (keys missing or found), every kind of key, up to three links',
     'Tests use a few small tables; misplaced rows need keys in another order, missing at one hop, or shared by two links.',
     [('lookups', f'{LDF} LinkedDataFrame._BaseNode._resolve_history, _LinkNode.__getitem__, _LinkLeaf.__getitem__'),
      ('rows of keys', f'{LDF} _LinkMeta._make_indexer, indexer_and_missing; _IndexMeta.get_indexer')], WIT)
prop('P42', 'Links say whether they need aggregation, and behave accordingly',
     'link_to reports that aggregation is required exactly if the keys of the target are not unique, whatever the kind of '
     'keys, whether or not the link is precomputed and whether the target is linked itself. Such a link is only usable through '
     'an aggregation and any other one by columns, also at the end of a path over several links. A link whose keys are unique '
     'on neither side is refused.',
     ['inputs', 'configurations'], 'every combination of kinds and uniqueness of keys, kinds of target and precompute',
     'The flag is decided from the data of two frames; with a wrong flag lookups return one of several rows.',
     [('decision', f'{LDF} _LinkMeta._determine_aggregation; LinkedDataFrame.link_to'),
      ('nodes', f'{LDF} LinkedDataFrame._init_link, _LinkNode.__getitem__')], WIT)
prop('P47', 'An aggregation gives each row the result over exactly its target rows',
     'frame.link.func(expr) gives for each row of the frame func over the values of expr in exactly those target rows whose '
     'key equals the key of the row; rows without target rows get NaN, or for integers and booleans int_fill. It has the '
     'index of the frame. Column names and expressions, arguments of the function, linked and plain targets, precomputed '
     'and lazy links, missing keys and groups without result are all treated alike. Functions that need numbers are refused '
     'for other data, unsupported functions are refused.',
     ['inputs', 'configurations'], 'every content of the frames, every supported function and type of data',
     'Missing keys and groups that drop out shift the results of all later groups; tests aggregate complete data.',
     [('aggregation', f'{LDF} LinkedDataFrame._LeafAggregation._Aggregator.__call__'),
      ('groups', f'{LDF} _LinkMeta._make_indexer')], WIT)
prop('P43', 'Precomputed, lazy and refreshed links give the same results',
     'Lookups and aggregations over a link are the same whether it was precomputed or not, however often and in whatever '
     'order it was used before, and whether indexers were computed for one link or all links of the frame. After '
     'compute_indexers() all links of the frame follow the current keys of both frames, also where keys are now missing or no '
     'longer missing; compute_indexers(refresh=False) only computes what is not computed yet. Columns of the target are read '
     'at their current values. link_summary says which links are computed.',
     ['history', 'inputs'], 'every content of the frames, kinds of keys, uses before and changes of keys',
     'Stale positions show only in sequences of use, change, refresh and use; tests look a link up once.',
     [('refresh', f'{LDF} LinkedDataFrame.compute_indexers, _LinkMeta.precompute'),
      ('lazy use', f'{LDF} _LinkMeta.indexer_and_missing, flat_indexer; LinkedDataFrame.link_summary')], WIT)
prop('P45', 'link_to means what its arguments say and changes nothing if it refuses them',
     'on / levels name the keys of both frames and take precedence over on_self / on_other / self_levels / other_levels of '
     'their side; without any of them the whole index is used; names, positions and lists of them are accepted, keys are '
     'compared in the order given. Columns and levels for the same side, different numbers of keys, columns or levels that do '
     'not exist, targets with several levels of columns and links whose keys are unique on neither side are refused, and then '
     'the frame keeps the links that it had, also one of the same name.',
     ['configurations', 'history'], 'the combinations of arguments, kinds of targets, precompute and links that exist',
     'The arguments combine to many cases; what a refused call leaves behind shows only in later lookups.',
     [('arguments', f'{LDF} LinkedDataFrame.link_to, _IndexMeta, _LinkMeta.create'), ('checks', f'{LDF} _IndexMeta.validate')], WIT)
prop('P44', 'Missing rows get the fill value that is set for the column or its type',
     'A lookup without a row in the target gives the fill value of the column, if one was set for the target, else that of '
     'the type of the column: by default 0, nan, False, "", nan, nat or None for (unsigned) integers, floats, booleans, text, '
     'categories, times and others, of any size. set_fill_defaults changes only the given types and only the given frame, or, '
     'if called on the class, plain frames and linked frames made afterwards. temporary_fill_defaults does so only inside of the '
     'with block, nested or not, however it is left. reset_fill_defaults restores the defaults. Types or columns that do not '
     'exist are refused.',
     ['inputs', 'history'], 'every type, order of settings, frames linked and plain, one and two links, exits of with blocks',
     'Settings are kept per class, frame and column and outlive calls; what leaks shows in later lookups of other frames.',
     [('types', 'cheval/ldf/missing_data.py infer_dtype'), ('defaults', 'cheval/ldf/missing_data.py SeriesFillManager'),
      ('frames', f'{LDF} LinkedDataFrame.set_fill_defaults, temporary_fill_defaults, reset_fill_defaults, set_column_fill, _get_fill')],
     WIT)
prop('P40', 'Frames derived from a linked frame keep its links, for their own rows',
     'A frame that is taken, sliced, reindexed, copied or finalized from a linked frame has the same links: a lookup or an '
     'aggregation over them gives for each of its rows the value that the keys of this row lead to, however the frame was '
     'derived, from which rows, repeatedly, and whether the links had been used, computed before or neither. The frames are '
     'separate afterwards: replacing, refreshing or using a link of one does not change the other. Derived frames can be '
     'targets of links. The result of a grouping takes over only the rows of links whose keys it has.',
     ['inputs', 'history'], 'every selection of rows, way of deriving a frame, kind of key and order of uses',
     'Selections, their repetition and what was computed before combine; a wrong indexer gives plausible values of other rows.',
     [('derived', f'{LDF} LinkedDataFrame.__finalize__, _take_with_is_copy, _slice, _reindex_with_indexers, copy'),
      ('links', f'{LDF} _LinkMeta.copy, copy_meta, same_keys')], WIT)
prop('P46', 'An expression over a linked frame is evaluated with the data of its rows',
     'frame.evaluate(expr) evaluates the translated expression with, for every name, the data of that column of the frame, '
     'or the given local value if there is no such column; for every path over links, with or without aggregation, what the '
     'same lookup of the frame gives for its rows; nan and negative infinity as constants; texts and categories converted. '
     'Names that are neither, or links that do not exist, are refused, dict literals and filters too. The result has the '
     'index of the frame, is written into out if given, and is cast within a kind only if that is allowed.',
     ['inputs', 'history'], 'columns, local values, links and aggregations, options, frames derived and evaluated before',
     'Any number of names and paths can be combined; a name taken from the wrong place still gives numbers.',
     [('evaluate', f'{LDF} LinkedDataFrame.evaluate'), ('conversion', 'cheval/utils.py convert_series')], WIT)
prop('P48', 'A pivot table is that of the columns and lookups it names',
     'frame.pivot_table(values, index, columns, ...) gives the pivot table that pandas makes of a plain frame with the same '
     'index, in which every name of values, index or columns, given alone or in a list, is the column of that name or, if there '
     'is none, the expression evaluated over the frame and its links. Without values all of its columns are aggregated, series '
     'and arrays are used as they are, and all other arguments apply unchanged. Names that are neither are refused.',
     ['inputs'], 'names, lists, expressions and arrays for each argument, options, derived frames',
     'The arguments combine to hundreds of cases; a name left out or taken from elsewhere still gives a plausible table.',
     [('pivot', f'{LDF} LinkedDataFrame.pivot_table, _resolve_columns'), ('evaluate', f'{LDF} LinkedDataFrame.evaluate')], WIT)

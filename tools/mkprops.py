"""Writes properties.jsonl (kept so that the file is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
X = 'ndg/xacml/'
CTX = X + 'core/context/'
ET = X + 'parsers/etree/'
FN = X + 'core/functions/'

prop('C01', 'The PDP decision is the XACML 2.0 decision for the policy and request',
 "For every supported policy or policy set and every request, the decision returned by the PDP is the one the XACML 2.0 evaluation rules prescribe (targets, conditions, functions, rule and policy combining algorithms, to any nesting depth), and the same holds for the outcome of every rule, policy and policy set inside it. "
 "An evaluation error gives Indeterminate at the rule or policy where it arises and is then combined as the algorithm says.",
 ['inputs', 'programs'],
 'every policy tree built from the supported elements x every request (any number of subjects, resources, attributes, values, issuers and data types)',
 'The tests evaluate about fifteen fixed policies on a handful of requests; the product of targets, conditions, functions, algorithms and nesting is unbounded.',
 [CTX + 'pdp.py', X + 'core/policybase.py', X + 'core/policy.py', X + 'core/policyset.py', X + 'core/rule.py', X + 'core/target.py', X + 'core/match.py', X + 'core/apply.py', X + 'core/condition.py'],
 [('PDP evaluation', CTX + 'pdp.py PDP.evaluate'), ('policy and policy set evaluation', X + 'core/policybase.py PolicyBase.evaluate'), ('rule evaluation', X + 'core/rule.py Rule.evaluate'), ('target matching', X + 'core/target.py Target.match'), ('expression evaluation', X + 'core/apply.py Apply.evaluate')],
 ['PDP.evaluate(request).results[0].decision', 'evaluate() of each nested policy set, policy and rule'])

prop('C02', 'Rule combining algorithms combine rule outcomes as XACML 2.0 specifies',
 "For every sequence of rules, deny-overrides, permit-overrides and first-applicable give the decision of the XACML 2.0 pseudo-code for the sequence of rule outcomes and rule effects, including Indeterminate outcomes of rules whose effect could have overridden. "
 "The result depends only on those outcomes and effects, and for the two overriding algorithms not on the order of the rules.",
 ['inputs', 'programs'],
 'every finite sequence of (outcome, effect) pairs, however each outcome came about (target, condition or error), for each of the three algorithms',
 'The tests cover a few sequences of two or three rules with Permit/Deny/NotApplicable outcomes; errors in particular positions are hardly sampled.',
 [X + 'core/rule_combining_alg.py', X + 'core/policy.py'],
 [('rule combining algorithms', X + 'core/rule_combining_alg.py'), ('choice of the algorithm from its identifier', X + 'core/policy.py ruleCombiningAlgId')],
 ['Policy.evaluate(request)'])

prop('C03', 'Policy combining algorithms combine child decisions as XACML 2.0 specifies',
 "For every sequence of child policies and policy sets, at any nesting depth, deny-overrides (where an Indeterminate child counts as Deny), permit-overrides and first-applicable give the decision of the XACML 2.0 pseudo-code for the sequence of child decisions. "
 "A policy set whose own target does not match is NotApplicable and one whose target is in error is Indeterminate, whatever its children say.",
 ['inputs', 'programs'],
 'every finite tree of policy sets and policies, each child having any of the four decisions, for each of the three algorithms',
 'The tests use a few two- or three-child policy sets; Indeterminate children and deeper trees are practically untested.',
 [X + 'core/policy_combining_alg.py', X + 'core/policyset.py', X + 'core/policybase.py'],
 [('policy combining algorithms', X + 'core/policy_combining_alg.py'), ('policy set evaluation', X + 'core/policybase.py PolicyBase.evaluate')],
 ['PolicySet.evaluate(request)', 'PDP.evaluate(request)'])

prop('C04', 'Evaluation fails safe: one result, errors Indeterminate, no exception',
 "For every request, including incomplete ones and ones for which functions, the policy information point or the attribute selection raise any error at any point, evaluation returns a response with exactly one result carrying one of the four decisions and never raises to the caller. "
 "The error makes the rule, or the policy whose target it occurs in, Indeterminate: it never counts as a match, a mismatch, a true or a false condition, and an undecidable rule or policy never yields its effect.",
 ['inputs', 'fault_sequences'],
 'every position at which an error can be raised during evaluation (each function call, PIP query, selection, missing request part), any exception type, any policy',
 'The tests inject a missing attribute in one policy; no test makes a function, selector or PIP raise at an arbitrary point.',
 [X + 'core/policybase.py', X + 'core/rule.py', X + 'core/match.py', X + 'core/target.py', X + 'core/attributedesignator.py', CTX + 'pdp.py'],
 [('catch-all in rule evaluation', X + 'core/rule.py Rule.evaluate'), ('catch-all in policy evaluation', X + 'core/policybase.py PolicyBase.evaluate'), ('response construction', X + 'core/policybase.py evaluateResponse')],
 ['PDP.evaluate(request)', 'Rule.evaluate', 'Policy.evaluate'])

prop('C05', 'Targets match exactly when the request satisfies their matches',
 "A target matches a request exactly when each non-empty subjects, resources, actions and environments section has at least one child all of whose matches hold, an absent or empty target or section matching everything. "
 "A match holds exactly when its function, called with the policy's value first and the request value second, is true for at least one value in the bag its designator or selector yields. An error in evaluating any of its matches for any value makes the whole target one in error, whatever the other matches and values say.",
 ['inputs', 'programs'],
 'every target (any number of sections, children and matches, with designators or selectors) x every request',
 'Tests sample a few targets; the AND/OR structure with several children, several matches and multi-valued attributes is combinatorial.',
 [X + 'core/target.py', X + 'core/match.py', X + 'core/subject.py', X + 'core/resource.py', X + 'core/action.py', X + 'core/environment.py'],
 [('target matching', X + 'core/target.py Target.match'), ('match evaluation', X + 'core/match.py MatchBase.evaluate')],
 ['Target.match(request)', 'decision of a policy or rule with that target'])

prop('C06', 'Attribute designators yield exactly the matching request values',
 "A designator evaluated on a request yields a bag with exactly the values of the attributes of its category (over all subjects and all resources) whose identifier and data type equal the designator's and, when the designator names an issuer, whose issuer equals it; every occurrence is kept and no other value is included. "
 "An empty result is an empty bag, or an error when the attribute must be present.",
 ['inputs'],
 'every designator (category, identifier, data type, issuer, must-be-present) x every request with any number of near-identical attributes',
 'Tests use one or two attributes per request and hardly vary issuer, data type, several subjects or duplicates.',
 [X + 'core/attributedesignator.py', CTX + 'request.py'],
 [('designator evaluation', X + 'core/attributedesignator.py *AttributeDesignator.evaluate')],
 ['designator.evaluate(request)', 'decisions depending on it'])

prop('C07', 'Attributes from the context handler are merged soundly',
 "When a request has a context handler, evaluating a subject designator asks it with the request and that designator and the bag is the request's own values followed by the returned values it does not contain yet; no values returned means no change, and a value that is not of the designator's data type is an error. "
 "Must-be-present is judged after the merge, other categories are not asked for, and neither the request nor the handler's own list is modified.",
 ['inputs', 'histories', 'fault_sequences'],
 'every request, designator and sequence of context handler answers (values, nothing, wrong type, exceptions), over repeated evaluations',
 'One test asks a context handler for one attribute; overlap with request values, multiple subjects, wrong types and failures are untested.',
 [X + 'core/attributedesignator.py', CTX + 'handler.py', CTX + 'request.py'],
 [('PIP query and merge', X + 'core/attributedesignator.py SubjectAttributeDesignator.evaluate'), ('context handler reference', CTX + 'request.py ctxHandler')],
 ['designator.evaluate(request)', 'calls seen by the context handler'])

prop('C08', 'Functions compute the XACML-defined result for every well-typed input',
 "For every supported function and all arguments of the right type, the result is the defined one: equality exactly when values are equal (case- and space-sensitive), one-and-only the sole value of a bag, bag the arguments in order, at-least-one-member-of whether the bags share a value, not, and (with no arguments true), round, string and URL concatenation in order, and regular expression matching of the value against the pattern. "
 "Evaluating a function changes none of its arguments.",
 ['inputs'],
 'every supported function identifier x every well-typed argument tuple',
 'Tests try a few argument pairs for some functions; most data types of each function family are never exercised.',
 [FN + '__init__.py', FN + 'v1/equal.py', FN + 'v1/match.py', FN + 'v1/one_and_only.py', FN + 'v1/bag.py', FN + 'v1/at_least_one_member_of.py', FN + 'v1/and.py', FN + 'v1/not.py', FN + 'v1/round.py', FN + 'v1/regexp_match.py', FN + 'v2/concatenate.py', FN + 'v2/regexp_match.py'],
 [('function classes', FN + 'v1, v2'), ('creation of a function class from its identifier', FN + '__init__.py FunctionClassFactoryBase')],
 ['functionMap[id]().evaluate(*args)'])

prop('C09', 'Functions refuse arguments of the wrong type or number',
 "Calling a supported function with an argument whose data type, kind (single value or bag, and the data type of the bag) or number is not what the function takes is always an error, never a true, a false or another value. "
 "Values of different data types never compare as equal or unequal, even when they hold the same characters, and a bag is never taken for its single value.",
 ['inputs'],
 'every supported function x every argument tuple with at least one ill-typed or missing or surplus argument',
 'A few tests assert TypeError for one wrong type each; the matrix of functions x data types x kinds is large.',
 [FN + '__init__.py', FN + 'v1/equal.py', FN + 'v1/match.py', FN + 'v1/one_and_only.py', FN + 'v1/bag.py', FN + 'v1/at_least_one_member_of.py', FN + 'v1/and.py', FN + 'v1/not.py', FN + 'v2/concatenate.py', X + 'core/attributevalue.py'],
 [('argument checks', FN + 'v1, v2 evaluate methods'), ('attribute value equality', X + 'core/attributevalue.py AttributeValue.__eq__')],
 ['functionMap[id]().evaluate(*args)', 'AttributeValue.__eq__'])

prop('C10', 'Unsupported functions and algorithms are refused when a policy is loaded',
 "A policy naming a function or combining algorithm that is not implemented, standard or not, fails to load with an error (every time, and whatever was looked up before), and no such policy is ever evaluated. "
 "Every implemented identifier resolves to an implementation of exactly that function, repeatably, and a custom function cannot be registered under a standard identifier.",
 ['inputs', 'histories'],
 'every standard and non-standard identifier, in every order of lookups and registrations',
 'Tests look up a few identifiers once each in a fresh map; repeated lookups after a failure and near-miss identifiers are not covered.',
 [FN + '__init__.py', X + 'core/apply.py', X + 'core/match.py', X + 'core/policy.py', X + 'core/policyset.py', X + 'core/rule_combining_alg.py', X + 'core/policy_combining_alg.py'],
 [('function map', FN + '__init__.py FunctionMap'), ('function setting', X + 'core/apply.py, core/match.py setFunctionFromMap'), ('algorithm factories', X + 'core/rule_combining_alg.py, core/policy_combining_alg.py')],
 ['PDP.fromPolicySource', 'functionMap.get / [] / load_custom_function'])

prop('C11', 'Loading a policy document preserves its content',
 "Loading any well-formed supported policy document gives objects holding exactly its identifiers, versions, descriptions, effects, targets, matches, expressions and attribute values, with rules, policies, matches and arguments in document order and documented defaults where something is left out. "
 "The result does not depend on insignificant differences: namespace prefix, attribute order, quoting, encoding, comments, processing instructions, ignorable white space, CDATA or character references, or whether it is read from a path, a stream or a parsed element.",
 ['inputs', 'programs', 'configurations'],
 'every supported policy document x every lexical variation of it x every kind of source',
 'The tests load about twenty fixed files and check a few attributes of each.',
 [ET + 'policyreader.py', ET + 'policysetreader.py', ET + 'rulereader.py', ET + 'targetreader.py', ET + 'targetchildreader.py', ET + 'matchreader.py', ET + 'conditionreader.py', ET + 'applyreader.py', ET + 'attributevaluereader.py', ET + 'attributedesignatorreader.py', ET + 'attributeselectorreader.py', ET + 'expressionreader.py', ET + 'policydefaultsreader.py', ET + '__init__.py'],
 [('readers', ET), ('text and child access', ET + '__init__.py getElementText, getElementChildren')],
 ['attributes of the loaded objects', 'decisions of the loaded policy'])

prop('C12', 'Malformed policies are refused, never partly loaded',
 "A document that lacks a required attribute or element content, contains an element where it is not allowed or which is not supported, names an unknown effect, gives a value of an unknown data type, repeats a rule, policy or policy set identifier, gives a match both a designator and a selector, no value or no source of request values, repeats a target, condition, designator or selector, puts elements into a value, reference, designator or selector, or is not well-formed is refused with an error on load. "
 "Nothing in a policy is ever silently skipped so that a document with an element that could affect decisions loads without it.",
 ['inputs', 'programs'],
 'every valid document x every single structural mutation of the listed kinds at every position',
 'Tests check two or three broken documents; removal of each required attribute at each nesting position is not enumerated.',
 [ET + 'policyreader.py', ET + 'policysetreader.py', ET + 'rulereader.py', ET + 'targetreader.py', ET + 'targetchildreader.py', ET + 'matchreader.py', ET + 'conditionreader.py', ET + 'applyreader.py', ET + 'attributevaluereader.py', ET + 'expressionreader.py', X + 'finder/policyfinderbase.py'],
 [('structure checks in the readers', ET), ('duplicate identifier checks', ET + 'policyreader.py, ' + X + 'finder/policyfinderbase.py')],
 ['PDP.fromPolicySource, Policy.fromSource, PolicySet.fromSource'])

prop('C13', 'Policy references behave as the referenced policy included in place',
 "A policy set that refers to policies or policy sets, whether loaded earlier in the document or found through a finder relative to its base path, decides every request as if they were included at the place of the reference, at any depth of references. "
 "A reference that cannot be found, or leads to a document with another identifier or kind, or a set of documents in which one identifier is defined twice, is refused on load, and a document is found relative to the base path wherever the process runs.",
 ['inputs', 'programs', 'configurations'],
 'every acyclic arrangement of policies over documents and references x every request x kind of finder and source',
 'Tests use one fixed pair of reference files; chains, repeated references, mismatched identifiers and other working directories are not covered.',
 [X + 'finder/urlpolicyfinder.py', X + 'finder/localpolicyfinder.py', X + 'finder/policyfinderbase.py', X + 'finder/defaultfinder.py', X + 'utils/urlfetcher.py', ET + 'policysetreader.py', ET + 'policybasereader.py', X + 'core/policyset.py'],
 [('reference resolution', X + 'finder/urlpolicyfinder.py'), ('reference reading', ET + 'policysetreader.py')],
 ['PDP.fromPolicySource(source, ReaderFactory, finder)', 'PDP.evaluate'])

prop('C14', 'Evaluation is read-only, deterministic and independent of history',
 "Evaluating a request changes neither the policy nor the request, and the decision for a policy and request is the same every time, whatever other requests were evaluated, other policies loaded or errors met before in the process. "
 "Responses are independent objects: later evaluations do not alter earlier responses, and changing one response alters neither other responses nor later decisions.",
 ['histories', 'inputs'],
 'every sequence of loads, evaluations (including failing ones) and modifications of returned responses',
 'Every test builds a fresh PDP and evaluates one or two requests; sharing and caching across evaluations is unobserved.',
 [X + 'core/policybase.py', X + 'core/rule.py', X + 'core/match.py', X + 'core/attributedesignator.py', FN + '__init__.py', CTX + 'result.py', CTX + 'exceptions.py'],
 [('stateless evaluation', X + 'core'), ('response creation', X + 'core/policybase.py evaluateResponse')],
 ['PDP.evaluate over a history', 'snapshots of policy and request before and after'],
 state=[('function map cache', 'function classes created on demand, shared by all policies', FN + '__init__.py functionMap'), ('compiled expressions', 'cache shared by all regular expression functions', FN + 'v1/regexp_match.py compiled_regexes')])

prop('C15', 'Request contexts survive serialisation to XML and parsing',
 "Serialising any request made of text-valued attributes and parsing the result gives a request with the same subjects (and categories), resources (and content), action and environment, and the same attributes (identifier, data type, issuer) and values in the same order and character for character, so that every policy decides both alike. "
 "Serialising does not change the request and can be repeated with the same result; a document with an attribute lacking its identifier, data type or values, with unknown or misplaced elements, with a second action, environment or resource content, or with elements inside a value is refused rather than read incompletely.",
 ['inputs'],
 'every request with text-valued data types, including empty, non-ASCII, mark-up and white-space values, and resource content',
 'The tests round-trip one or two hand-written requests with plain values.',
 [ET + 'context.py', ET + '__init__.py', X + 'core/attribute.py', CTX + 'request.py'],
 [('request serialisation and parsing', ET + 'context.py *ElementTree.toXML / fromXML')],
 ['RequestElementTree.toXML / fromXML', 'PDP.evaluate on both'])

prop('C16', 'Responses, results and decisions survive serialisation to XML and parsing',
 "Serialising any response and parsing the result gives the same number of results with the same decisions and resource identifiers in the same order, and the XML names the decision exactly as XACML does. "
 "A document with an unknown decision, a result without exactly one decision, a wrong root or an unexpected element is refused, never read as some decision.",
 ['inputs'],
 'every response with any number of results, decisions and resource identifiers; every mutation of its document',
 'The tests serialise one Permit result.',
 [ET + 'context.py', CTX + 'response.py', CTX + 'result.py'],
 [('response serialisation and parsing', ET + 'context.py Response/Result/DecisionElementTree')],
 ['ResponseElementTree.toXML / fromXML'])

prop('C17', 'Request contexts survive pickling and copying',
 "Pickling and unpickling, or deep-copying, a request, response, result, decision, attribute or attribute value gives an equal, independent object: same content in the same order, the same decision from every policy, type restrictions still enforced, and later changes to one not visible in the other. "
 "This holds for requests built through the API and for requests parsed from XML, with or without resource content.",
 ['inputs', 'configurations'],
 'every request and response x every pickle protocol from 2 up and every deep copy',
 'The tests pickle one request under one protocol without values that matter.',
 [CTX + 'request.py', CTX + 'resource.py', CTX + 'subject.py', CTX + '__init__.py', X + 'core/attribute.py', X + 'core/attributevalue.py', X + 'core/expression.py', X + 'core/__init__.py', X + 'utils/__init__.py', CTX + 'result.py'],
 [('pickling support', '__getstate__/__setstate__/__reduce__ of the context classes')],
 ['pickle.loads(pickle.dumps(x))', 'copy.deepcopy(x)', 'PDP.evaluate'])

prop('C18', 'Attribute selectors yield exactly the selected text, in document order',
 "An attribute selector evaluated on a request with an XML context yields a bag of its data type with exactly the text of the elements its path selects, in document order and character for character; absolute and relative paths, predicates and descendant steps select as XPath says. "
 "An empty selection is an empty bag, or an error when it must be present; a request without a selectable document, an unknown data type or a path that the XML library cannot parse or that does not select elements is an error.",
 ['inputs', 'configurations'],
 'every path in the fragment both XML libraries support x every request document',
 'The tests select by three fixed paths from one document.',
 [X + 'core/attributeselector.py', X + 'utils/xpath_selector.py', ET + 'attributeselectorreader.py'],
 [('selector evaluation', X + 'core/attributeselector.py AttributeSelector.evaluate'), ('selection', X + 'utils/xpath_selector.py EtreeXPathSelector.selectText')],
 ['AttributeSelector.evaluate(request)', 'EtreeXPathSelector.selectText(path)'])

prop('C19', 'Both XML libraries give the same policies, contexts and decisions',
 "With lxml and with the standard library's ElementTree the same documents are accepted and refused, the loaded policies and requests have the same content, every request gets the same decision and serialised requests and responses have the same XML content. "
 "A document serialised under one is read with the same meaning under the other.",
 ['configurations', 'inputs'],
 'every policy, request and response document (valid and malformed) under both XML libraries',
 'Each test runs with fixed documents under one library at a time; nothing compares what the two give.',
 [X + '__init__.py', ET + '__init__.py', ET + 'context.py', ET + 'reader.py', X + 'utils/xpath_selector.py', X + 'utils/etree.py'],
 [('library choice', X + '__init__.py importElementTree'), ('library dependent helpers', ET + '__init__.py, ' + X + 'utils/xpath_selector.py')],
 ['outcome records of the same cases under both interpreters'])

prop('C20', 'Typed containers never hold what they refuse and behave as their base types',
 "A typed list never contains an item of another type, whatever sequence of public list operations was attempted, a refused operation leaves it unchanged, and with well-typed items it behaves exactly as a list; a unique list never gains an item equal to one it holds, however items are added (constructor, append, insert, extend, +=), and keeps first occurrences in order. "
 "Restricted and vetted dictionaries never hold a key or value their restriction refuses and otherwise behave as dictionaries.",
 ['histories', 'inputs'],
 'every sequence of container operations with valid and invalid items, including one-shot iterators',
 'The tests call a few operations once each.',
 [X + 'utils/__init__.py', X + 'core/attributevalue.py', FN + '__init__.py', ET + 'attributevaluereader.py', ET + 'factory.py'],
 [('TypedList, UniqList, RestrictedKeyNamesDict, VettedDict', X + 'utils/__init__.py')],
 ['content after every operation against a plain list / dict'])

prop('C21', 'Registered extensions take effect exactly as registered',
 "A data type, data type reader, function, combining algorithm or element reader registered through the extension interfaces is used for its own identifier in policies loaded afterwards, with its own result, and changes nothing about any other identifier. "
 "A registration of the wrong kind is refused and leaves the registry as it was, and an existing data type is replaced only when overwriting is asked for.",
 ['histories', 'programs', 'inputs'],
 'every sequence of registrations and loads, with valid and invalid classes, new and existing identifiers',
 'Tests register one example of each and check the success path.',
 [FN + '__init__.py', X + 'core/attributevalue.py', ET + 'attributevaluereader.py', ET + 'factory.py', X + 'core/rule_combining_alg.py', X + 'core/policy_combining_alg.py', X + 'core/policy.py', X + 'core/policyset.py', X + 'utils/factory.py'],
 [('function registration', FN + '__init__.py FunctionMap.load_custom_function, __setitem__'), ('data type registration', X + 'core/attributevalue.py AttributeValueClassFactory.addClass'), ('reader registration', ET + 'attributevaluereader.py DataTypeReaderClassFactory.addReader, ' + ET + 'factory.py ReaderFactory.addReader'), ('algorithm factories', X + 'core/policy.py ruleCombiningAlgFactory')],
 ['registry content', 'decisions of policies using the extensions'])

prop('C22', 'Decisions and effects only take the defined values and constants never change',
 "A decision, effect or status code object only ever holds one of the values XACML defines; an attempt to set or create another value, or one of another type, is refused and keeps the old value. "
 "The predefined constants cannot be changed by any means short of reflection, equality holds exactly between equal values (object or text) and comparing with something that is neither is an error.",
 ['inputs', 'histories'],
 'every sequence of constructions, assignments and comparisons with valid and invalid values',
 'Tests assign one valid and one invalid value.',
 [CTX + 'result.py', X + 'core/rule.py'],
 [('vocabulary checks', CTX + 'result.py Decision, ' + X + 'core/rule.py Effect'), ('read-only constants', CTX + 'result.py PermitDecision ..., ' + X + 'core/rule.py PermitEffect ...')],
 ['value, str, ==, bool of the objects'])

prop('C23', 'Setting a property to something of the wrong type is refused atomically',
 "Assigning a value of the wrong type to any typed property of a policy, request or response object, or an identifier that cannot be resolved, raises an error and leaves the object as it was, including what depends on the property (function, algorithm, decision). "
 "Assigning a value of the right type always takes effect: reading gives it back, on that object only.",
 ['inputs', 'histories'],
 'every settable property x every kind of value x every prior state',
 'Tests assign a wrong type to a few properties and do not look at the object afterwards.',
 [X + 'core/policy.py', X + 'core/policyset.py', X + 'core/rule.py', X + 'core/condition.py', X + 'core/match.py', X + 'core/apply.py', X + 'core/attribute.py', X + 'core/attributevalue.py', X + 'core/attributedesignator.py', X + 'core/attributeselector.py', X + 'core/expression.py', X + 'core/policydefaults.py', CTX + 'request.py', CTX + 'subject.py', CTX + 'result.py', CTX + 'pdp.py', CTX + 'handler.py'],
 [('property setters', X + 'core, ' + CTX)],
 ['property values before and after'])

prop('C24', 'Concurrent loading and evaluation gives the sequential results',
 "When several threads load policies and evaluate requests at the same time, sharing PDPs, policies, requests and the process-wide registries, every load gives the same policy and every evaluation the same decision as it would alone, and none raises an error or blocks for ever. "
 "No thread sees values, issuers or errors belonging to another thread's request.",
 ['schedules', 'histories'],
 'every interleaving of loads and evaluations by several threads, including first use of functions and regular expressions',
 'The tests are single-threaded.',
 [FN + '__init__.py', FN + 'v1/regexp_match.py', ET + 'reader.py', ET + '__init__.py', X + 'core/policybase.py', X + 'core/attributedesignator.py', X + 'core/match.py'],
 [('per-call state in evaluation', X + 'core'), ('shared registries', FN + '__init__.py functionMap')],
 ['decisions and loads per thread compared with a sequential run'],
 state=[('function map', 'filled on first use of an identifier', FN + '__init__.py'), ('compiled expressions', 'filled on first use of a pattern', FN + 'v1/regexp_match.py'), ('namespace map', 'replaced while reading with the standard library', ET + 'reader.py')])

prop('C25', 'A rule gives its effect only if its target matches and its condition is true',
 "A rule evaluates to its effect exactly when its target (if any) matches and its condition (if any) is true, to NotApplicable when the target does not match or the condition is false, and to Indeterminate when either is in error. "
 "A condition that does not yield a boolean is an error: it never makes the rule apply or silently not apply.",
 ['inputs', 'programs'],
 'every rule (target, condition, effect) x every request, with conditions yielding values of any type or bags',
 'Tests check a few rules with true and false conditions.',
 [X + 'core/rule.py', X + 'core/condition.py', X + 'core/target.py', X + 'core/apply.py'],
 [('rule evaluation', X + 'core/rule.py Rule.evaluate'), ('condition evaluation', X + 'core/condition.py Condition.evaluate')],
 ['Rule.evaluate(request)'])

prop('C26', 'Regular expression functions depend only on pattern and value',
 "The result of a regular expression function is determined by its pattern and value alone: it is the same whatever patterns, values or data types were matched before in the process, and repeated calls agree. "
 "A pattern that is not a valid expression is an error every time it is used, and the pattern is always the policy's value, never the request's.",
 ['histories', 'inputs'],
 'every sequence of calls over any patterns, values and the six data types',
 'Tests match a few patterns once each.',
 [FN + 'v1/regexp_match.py', FN + 'v2/regexp_match.py', X + 'core/match.py'],
 [('regular expression matching and cache', FN + 'v1/regexp_match.py RegexpMatchBase.evaluate')],
 ['functionMap[id]().evaluate(pattern, value)', 'target matches using the functions'],
 state=[('compiled expressions', 'cache shared by all the functions', FN + 'v1/regexp_match.py compiled_regexes')])

prop('C27', 'Pretty-printed XML parses back to the same content',
 "Pretty-printing any request, response or policy element, serialised or parsed, gives well-formed XML which, apart from white space around text, parses back to the same elements, namespaces, attributes and text in the same order. "
 "Printing does not alter the element, and printing it again, or other elements in between, gives the same text.",
 ['inputs', 'histories'],
 'every serialised request, response or policy document with arbitrary text and attribute values',
 'The tests print one document and only look at the output by eye.',
 [X + 'utils/etree.py', ET + '__init__.py'],
 [('pretty printing', X + 'utils/etree.py prettyPrint')],
 ['prettyPrint(element)'])

prop('C28', 'A name given as a path stands for exactly the object of that name',
 "A class or function named by module and name (module.Name, module:Name, module:Outer.Inner, or module and name apart), as used to register function factories and to find readers, is exactly the object of that name in that module, or an error if there is none; where a base type is demanded an object of any other kind is refused before it is called. "
 "Calling an object by name passes exactly the arguments and properties given, once, and gives its result or its error; whether it succeeds or fails the import path is afterwards what it was and the arguments given are unchanged.",
 ['inputs', 'histories'],
 'every module layout, form of the name, kind of object, demanded type and directory, in every order of calls',
 'No test covers importing or calling by name beyond one factory path.',
 [X + 'utils/factory.py', FN + '__init__.py', ET + 'factory.py'],
 [('import and call by name', X + 'utils/factory.py importModuleObject, callModuleObject'), ('function factories by path', FN + '__init__.py load_custom_function')],
 ['the object imported, the arguments it is called with, sys.path before and after'])

prop('C29', 'Loading and evaluating touch only the given documents and leave nothing behind',
 "Loading a policy, request or response reads only the source given and the policies it refers to: document types, entities and locations named in a document never make it read another file or contact a host, or bring in what stands there. Evaluating, serialising, printing and copying read and write no file, open no connection, print nothing, and run no text of a document as code. "
 "After each of these, successful or not, the process (open files, import path, working directory, environment, warning filters, signal handlers, random numbers ...) is as it was before, and once the caller drops the objects nothing of them stays in memory, however many rounds of work are done.",
 ['inputs', 'faults', 'histories'],
 'every document, broken or hostile, and every sequence of loading, evaluating, serialising, printing and copying',
 'No test looks at anything outside the objects returned.',
 [ET + 'reader.py', ET + 'policyreader.py', ET + 'factory.py', ET + 'context.py', X + 'utils/urlfetcher.py', X + 'utils/factory.py', X + 'utils/etree.py', X + 'finder/urlpolicyfinder.py', X + 'core/policybase.py', CTX + 'pdp.py'],
 [('parsing of sources', ET + 'reader.py _parse'), ('fetching of references', X + 'utils/urlfetcher.py'), ('evaluation', X + 'core, ' + CTX)],
 ['audit events, inotify events, connections, output, process state and live objects around each step'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, S, F, P = 'inputs', 'histories', 'configurations', 'schedules', 'fault_sequences', 'programs'

ENG = 'modsecurity/'
PROPS = [
 dict(id='C01', title='A rule fires exactly when a value it targets satisfies its operator',
  st='For every transaction and every rule, the rule fires exactly if at least one of the values selected by its targets, after all of its transformations in the order written, satisfies its operator, or with a negated operator does not satisfy it; a rule whose targets select nothing does not fire, negated or not. A chain fires exactly if each of its links does, and rules loaded from text and rules built in Go behave alike.',
  over=[I, P], q='all transactions (request line, headers, cookies, parameters, bodies, responses) and all rules made of the supported targets, transformations, operators, operands and negation, at every stage',
  why='The tests pair a handful of fixed rules with fixed requests; the combinations of targets, transformations, operators, negation and values are unbounded.',
  files=[ENG+'sec_rule.go', ENG+'transaction.go', 'seclang/sec_rule.go'],
  mech=[('SecRule.Match', ENG+'sec_rule.go'), ('SecRule.TransformString', ENG+'sec_rule.go'), ('SecRule.FetchAllTransformedVariables', ENG+'sec_rule.go')],
  tech='property-based testing (rapid): generated transactions x rules against a reference evaluator'),
 dict(id='C02', title='Rules run in stage order, in the order written, at most once',
  st='In one transaction the rules of a stage run in the order in which they were added, those added since the transaction began included, when the host reports that stage, and never twice however often or in whatever order the host reports stages; a stage that is passed over or reported late does not run afterwards, and a rule whose stage is none of the six never runs. Every rule that is not skipped, ended by an interception or allowed past is evaluated.',
  over=[H, P], q='all rule sets over the six stages and all sequences of host calls, complete, incomplete, repeated or out of order',
  why='The tests take each transaction once through the natural order with one or two rules.',
  files=[ENG+'transaction.go', ENG+'sec_rule.go'],
  mech=[('Transaction.ProcessPhase', ENG+'transaction.go'), ('Transaction.Next', ENG+'transaction.go'), ('SecRuleSet.Process', ENG+'sec_rule.go')],
  tech='stateful property-based testing: generated rule sets and call histories against a model of the control flow'),
 dict(id='C03', title='A denial is reported, ends the processing, and stays until collected',
  st='When a denying rule fires, no later rule runs until the host has collected the result, and the result says that the transaction is intercepted with the status of the rule if that is a valid HTTP status and 403 otherwise; collecting it clears it and later stages run again. An abort by the host or the engine is reported by every later result and ends rule processing for good, and results already collected do not change.',
  over=[H, P], q='all rule sets with denying, blocking and passing rules, statuses, and all sequences of host calls with aborts and collections at any place',
  why='The tests look at one denial at a time, right after it happened; what later rules, stages, collections and aborts do to it depends on the history.',
  files=[ENG+'transaction.go', ENG+'actions/deny.go', ENG+'actions/status.go', ENG+'actions/block.go', ENG+'actions/pass.go'],
  mech=[('Transaction.Result', ENG+'transaction.go'), ('Transaction.AbortWithStatus', ENG+'transaction.go'), ('ActionDeny.Do', ENG+'actions/deny.go')],
  tech='stateful property-based testing: generated call histories against a model of interception'),
 dict(id='C04', title='allow skips what it says and nothing else',
  st='When a rule with allow fires, the rest of its stage is skipped; without an argument the remaining request and response stages are skipped as well, with "request" only the remaining request stages, with "phase" nothing more, and the logging stage always runs. The actions of the same rule still take effect, and no rule already run is run again.',
  over=[H, P], q='all rule sets with allowing rules of every scope in any stage, and all sequences of host calls',
  why='The tests call the action on its own and look at one field; which rules then run depends on stage, scope and the later calls.',
  files=[ENG+'actions/allow.go', ENG+'transaction.go'],
  mech=[('ActionAllow.Do', ENG+'actions/allow.go'), ('Transaction.JumpToPhase', ENG+'transaction.go')],
  tech='stateful property-based testing: generated rule sets and call histories against a model of the control flow'),
 dict(id='C05', title='A chain acts exactly if all of its links match',
  st='No action of any link of a chain takes effect unless every link of the chain matches, and if all match, the actions of all links take effect, each once. A chain counts as a single rule, and what fires in a chain is the same whether it was loaded from text or built in Go.',
  over=[I, P], q='all chains up to 12 links with any actions on the links, among other rules, under all engine modes',
  why='The tests have chains of two links that match or do not; positions, lengths and neighbours vary without bound.',
  files=[ENG+'sec_rule.go', 'seclang/rule_set.go', 'seclang/sec_rule.go'],
  mech=[('SecRule.Do', ENG+'sec_rule.go'), ('DireSet.AddSecLangString', 'seclang/rule_set.go')],
  tech='property-based testing: generated chains against a model'),
 dict(id='C06', title='skip passes over exactly the next n rules of its stage',
  st='When a rule with skip:n fires (n is 1 if not given), exactly the next n rules or chains of the same stage are not evaluated, or all that remain if they are fewer, and evaluation goes on with the rule after them. Skipping never reaches into another stage, another transaction or back.',
  over=[I, P], q='all rule sets with skipping rules at any position and any count, chains among the skipped rules',
  why='The tests skip one rule in one arrangement; counts, positions, chains and the ends of stages vary.',
  files=[ENG+'actions/skip.go', ENG+'transaction.go'],
  mech=[('ActionSkip.Do', ENG+'actions/skip.go'), ('Transaction.JumpTo', ENG+'transaction.go')],
  tech='property-based testing: generated rule sets against a model'),
 dict(id='C07', title='On, Off and DetectionOnly decide what rules may do',
  st='With the engine off no rule runs and nothing is intercepted or logged by rules; in detection only mode all rules are evaluated and every action that is not disruptive takes effect, but no rule and no body limit intercepts, denies, allows or passes; switched on, all actions take effect. The mode holds however and whenever it was set, from rule text or in Go, before a transaction or between two of its stages.',
  over=[C, H, P], q='all engine modes, rule sets with all kinds of actions, and call histories with aborts',
  why='The tests switch modes for one denying rule; every kind of action in every stage has to keep to the mode.',
  files=[ENG+'engine.go', ENG+'transaction.go', ENG+'sec_rule.go', 'seclang/rules.go'],
  mech=[('Engine.Enable', ENG+'engine.go'), ('ActionsExecute', ENG+'sec_rule.go'), ('Transaction.AbortWithError', ENG+'transaction.go'), ('DireRuleEngine.Execute', 'seclang/rules.go')],
  tech='stateful property-based testing: generated modes, rule sets and histories against a model'),
 dict(id='C08', title='The actions of a rule take effect in a fixed order of kinds',
  st='When a rule fires, each of its actions takes effect exactly once, data actions such as the status before non-disruptive ones such as log, these before disruptive ones, and flow actions last, in whatever order they are written; actions of the same kind keep the order written. A blocking rule takes the default actions of the rule set, and log entries name the client, the stage and the rule.',
  over=[I, P], q='all lists of actions of all kinds in all orders on rules and links, and all default actions',
  why='The tests have rules of one or two actions in one order.',
  files=[ENG+'sec_rule.go', ENG+'actions/log.go', ENG+'actions/status.go', ENG+'actions/block.go'],
  mech=[('ActionsExecute', ENG+'sec_rule.go'), ('SecRuleSet.ExecuteDefaultActions', ENG+'sec_rule.go'), ('Transaction.Logf', ENG+'transaction.go')],
  tech='property-based testing: generated action lists, with probes of every kind, against a model'),
 dict(id='C09', title='How a rule text is laid out does not change what it says',
  st='The same directives give the same parsed result whatever quotes, escapes, continued lines, line ends (LF, CRLF, CR), blanks, blank lines, separators of targets and letter case of directives are used to write them. Targets, negation, operators, operands, action lists and arguments come out of the text exactly as they were put in, one directive at a time or all at once, those that a host registered included.',
  over=[I], q='all lists of directives of the supported language and all layouts of them, in texts of any size',
  why='The tests parse a few dozen fixed texts, most in the same layout.',
  files=['seclang/parser/scanner.go', 'seclang/parser/utils.go', 'seclang/parser/seclang_token.go'],
  mech=[('Scanner.readString', 'seclang/parser/scanner.go'), ('Scanner.ReadVariables', 'seclang/parser/scanner.go'), ('Scanner.ReadOperator', 'seclang/parser/scanner.go'), ('Scanner.ReadActions', 'seclang/parser/scanner.go'), ('splitActions', 'seclang/parser/utils.go')],
  tech='round-trip property-based testing: generated directives written in random layouts and parsed back'),
 dict(id='C10', title='Any bytes as rule text end in directives or an error, however they arrive',
  st='Parsing and loading any byte sequence ends, without a panic, with directives or with an error, and what loads can be run. The outcome does not depend on how the reader hands the bytes over; a reader that fails always leads to an error, never to a shorter rule set; and two texts that parse, put one after the other, give the directives of both.',
  over=[I, F], q='all byte sequences, all readers that give any number of bytes at a time or fail after any number of bytes',
  why='The tests hold valid texts, all from memory, and few errors; hangs, panics and lost errors show on other inputs and readers.',
  files=['seclang/parser/scanner.go', 'seclang/parser/utils.go', 'seclang/rule_set.go'],
  mech=[('Scanner.nextDirective', 'seclang/parser/scanner.go'), ('Scanner.advance', 'seclang/parser/scanner.go'), ('Scanner.readFailed', 'seclang/parser/scanner.go')],
  tech='fuzzing with structured mutators and fault-injecting readers; differential and metamorphic oracles'),
 dict(id='C11', title='Loading a rule text gives the engine exactly the rules and settings written',
  st='After texts are loaded, every stage holds exactly the rules written for it, in the order written across texts, each with its own id, targets, transformations, operator, operand, negation, actions with their arguments, metadata and chain; rules without a stage are in the default one. The settings of the engine are those written last, and settings that are not written, limits and whatever else a host set or added keep their values. The same set loaded into several engines gives each of them the same.',
  over=[P, C], q='all lists of texts of all supported directives, loaded one after the other, as one set or as one text, into fresh engines and into engines that a host set up',
  why='The tests compare single directives with expected structures; interplay of many directives, texts and chains is not reached.',
  files=['seclang/rule_set.go', 'seclang/sec_rule.go', 'seclang/rules.go', 'seclang/actions.go', 'seclang/operators.go', 'seclang/trans.go', 'seclang/variable.go', ENG+'sec_rule.go'],
  mech=[('DireSet.Execute', 'seclang/rule_set.go'), ('DireRule.FromSecLang', 'seclang/sec_rule.go'), ('DireRule.applyActions', 'seclang/actions.go'), ('DireRule.applyVariables', 'seclang/variable.go'), ('SecRuleSet.AddRules', ENG+'sec_rule.go')],
  tech='property-based testing: generated rule texts against the data they were written from'),
 dict(id='C12', title='A rule text with a fault is refused as a whole and changes nothing',
  st='A text with an unknown directive, variable, operator, transformation or action, a malformed regular expression, number, stage, status, severity, scope or selector, an empty target, an unfinished string or stray text is refused with an error, wherever in the text the fault is. Nothing of a refused text takes effect, and the rules and settings loaded before stay as they were.',
  over=[I, P], q='all otherwise valid texts with one fault of 20 kinds at any place, loaded alone or after other texts',
  why='The tests hold a few faults, each alone in a text, and do not look at what is left behind.',
  files=['seclang/rule_set.go', 'seclang/parser/scanner.go', 'seclang/actions.go', 'seclang/operators.go', 'seclang/trans.go', 'seclang/variable.go'],
  mech=[('DireSet.AddSecLangString', 'seclang/rule_set.go'), ('processAction', 'seclang/parser/scanner.go'), ('toNum', 'seclang/actions.go')],
  tech='fault injection into generated rule texts; oracle: refused, and the earlier set unchanged'),
 dict(id='C13', title='A target list selects what its names, patterns, exclusions and counts say',
  st='A rule looks at the values of every target it lists, each once: of a collection all members, or those whose name is the one given or matches the pattern given, without those whose names an exclusion in the list names, and of a counted target the number of values. Header names are compared without regard to letter case, parameter and cookie names with regard to it, and the order of the list does not matter.',
  over=[I, P], q='all transactions and all target lists over the collections, with names, patterns, exclusions and counts in any order',
  why='The tests select from collections of two or three members with one selector at a time.',
  files=[ENG+'variables/filter.go', ENG+'variables/count.go', ENG+'variables/merge.go', 'seclang/variable.go'],
  mech=[('filter.Fetch', ENG+'variables/filter.go'), ('CountVariable.Fetch', ENG+'variables/count.go'), ('DireRule.applyVariables', 'seclang/variable.go')],
  tech='property-based testing: generated transactions and target lists against a reference selection'),
 dict(id='C14', title='Rules see the request line and the query as they were sent',
  st='Method, protocol, client address, uri, path, last path segment and query string that rules see are those of the request; the parameters of the query are all of its name and value pairs, decoded, in whatever encoding, order and number they come, those with malformed escapes included. Nothing is there before the host has handed it over, what it handed over last counts, and a request without a url has none of it.',
  over=[I], q='all urls, queries with any encodings, methods, protocols and addresses, at every stage',
  why='The tests have one or two fixed urls for each variable.',
  files=[ENG+'variables/query.go', ENG+'variables/args_gets.go', ENG+'variables/args_get_names.go', ENG+'variables/request_uri.go', ENG+'variables/request_basename.go', ENG+'variables/request_filename.go', ENG+'variables/query_string.go', ENG+'variables/request_method.go', ENG+'variables/request_protocol.go', ENG+'variables/remote_addr.go'],
  mech=[('parseQuery', ENG+'variables/query.go'), ('VariableRequestBasename.Fetch', ENG+'variables/request_basename.go')],
  tech='property-based testing: generated requests against a reference reading of them'),
 dict(id='C15', title='Rules see every request header and cookie',
  st='The headers rules see are all headers of the request, each value of a repeated header on its own, and their names; the cookies are all cookies of all cookie lines, with their values as sent, and their names. No header or cookie that was sent is missing, and none is made up, however the host writes the names, and of headers handed over more than once the last ones count.',
  over=[I], q='all sets of headers with any number of values, and all cookie lines with any separators, blanks, empty and repeated cookies',
  why='The tests have one request with a few headers and cookies.',
  files=[ENG+'variables/request_headers.go', ENG+'variables/request_headers_names.go', ENG+'variables/request_cookies.go', ENG+'variables/request_cookies_names.go'],
  mech=[('VariableRequestHeaders.Fetch', ENG+'variables/request_headers.go'), ('VariableRequestCookies.Fetch', ENG+'variables/request_cookies.go')],
  tech='property-based testing: generated headers and cookies against a reference reading of them'),
 dict(id='C16', title='Rules see every parameter of a request body',
  st='For an urlencoded body the parameters that rules see are all of its name and value pairs, decoded, and the body itself is seen as sent; for a multipart body they are all named parts that are not files, with their names and contents. This does not depend on the pieces in which the body is handed over, on whether it is kept in memory or in a file, on how often it was looked at, or on the other parameters.',
  over=[I, C], q='all urlencoded and multipart bodies within the limits, all ways of splitting them, all memory limits',
  why='The tests have one body of each kind, handed over at once and kept in memory.',
  files=[ENG+'variables/request_body_parser.go', ENG+'variables/args_posts.go', ENG+'variables/args_post_names.go', ENG+'variables/args.go', ENG+'variables/args_names.go', ENG+'variables/request_body.go', ENG+'buffer.go'],
  mech=[('requestBodyParse', ENG+'variables/request_body_parser.go'), ('parseQuery', ENG+'variables/query.go')],
  tech='property-based testing: generated bodies against the data they were written from'),
 dict(id='C17', title='Bodies are looked at only if they are to be',
  st='Parameters of the request body are seen exactly if access to request bodies is on, the method is one that carries a body (POST, PUT, PATCH) and the content type, in any letter case and with any parameters, is one that is parsed; the response body is seen exactly if access to response bodies is on. A body that is not to be looked at changes no verdict.',
  over=[I, C], q='all combinations of access settings, methods, content types and bodies',
  why='The tests try single combinations.',
  files=[ENG+'variables/request_body_parser.go', ENG+'variables/request_body.go', ENG+'variables/response_body.go', 'seclang/rules.go'],
  mech=[('requestBodyParse', ENG+'variables/request_body_parser.go'), ('VariableResponseBody.Fetch', ENG+'variables/response_body.go')],
  tech='property-based testing: generated settings, methods, types and bodies against a reference'),
 dict(id='C18', title='Rules see the response as it was given',
  st='Status, protocol, headers, header names, content type, content length and body that rules see are those of the response, once the host has handed them over, and those it handed over last when it did so more than once: the content type without its parameters in lower case, or a default if none is given, and the length as the header states it, or 0.',
  over=[I], q='all responses with any status, headers, repeated headers, and bodies in any pieces',
  why='The tests have one response for each variable.',
  files=[ENG+'variables/response_body.go', ENG+'variables/response_status.go', ENG+'variables/response_protocol.go', ENG+'variables/response_headers.go', ENG+'variables/response_headers_names.go', ENG+'variables/response_content_type.go', ENG+'variables/response_content_length.go'],
  mech=[('VariableResponseContentType.Fetch', ENG+'variables/response_content_type.go'), ('VariableResponseHeaders.Fetch', ENG+'variables/response_headers.go')],
  tech='property-based testing: generated responses against a reference reading of them'),
 dict(id='C19', title='Bodies beyond a limit are refused or intercepted, never passed unseen',
  st='A piece of a body that would exceed the total limit is refused with an error and leaves the body as it was; everything up to the limit is accepted. When a rule looks into a request body that is too large to be inspected, the transaction is intercepted for good with status 413 and no rule fires from then on, except in detection only mode, in which it goes on, and in either mode the log of a result says so; a body of exactly the limit is inspected in full.',
  over=[I, C, H], q='all limits, all sequences of pieces about them, and all rules that look into bodies at any stage',
  why='The tests exceed a limit once with one variable; the boundary, the kinds of rules and what happens afterwards are not covered.',
  files=[ENG+'buffer.go', ENG+'transaction.go', ENG+'variables/request_body_parser.go', ENG+'variables/request_body.go', ENG+'sec_rule.go'],
  mech=[('buffer.Write', ENG+'buffer.go'), ('Transaction.AbortWithError', ENG+'transaction.go'), ('SecRule.Match', ENG+'sec_rule.go')],
  tech='property-based testing at generated boundaries against a model of limits and interception'),
 dict(id='C20', title='A body is byte for byte what was appended, however it is read',
  st='Whatever is accepted into a body is read back unchanged, in order and completely, by any sequence of reads, seeks and copies, whether it is kept in memory or in a file and wherever the change from one to the other falls; its length is always the number of bytes accepted. A write that is refused, because of a limit, a full disk, a missing directory or an earlier read, leaves the body as it was.',
  over=[I, H, F], q='all sequences of writes of any sizes, reads, seeks and copies, all memory and total limits, with the temporary directory missing or the disk full at any time',
  why='The tests write one or two fixed pieces and read them once from the start.',
  files=[ENG+'buffer.go'],
  mech=[('buffer.Write', ENG+'buffer.go'), ('buffer.Read', ENG+'buffer.go'), ('buffer.Seek', ENG+'buffer.go'), ('buffer.WriteTo', ENG+'buffer.go')],
  tech='stateful property-based testing with injected faults against a model that is a byte string and a position'),
 dict(id='C21', title='Temporary files stay in their directory and do not outlive the bodies',
  st='A transaction uses at most one temporary file for a body that does not fit in memory, in the configured directory, and none otherwise; looking into a body, uploads included, leaves no other file anywhere; without a directory there is no transaction. Once the bodies are closed no file and no open descriptor is left, whatever the transaction went through.',
  over=[H, C, F], q='all transactions with bodies of any kind and size, complete, cut, denied or left at any step',
  why='The tests look at the temporary file of one body; leaks show over histories and kinds of bodies.',
  files=[ENG+'buffer.go', ENG+'variables/request_body_parser.go'],
  mech=[('buffer.Close', ENG+'buffer.go'), ('newBuffer', ENG+'buffer.go'), ('parsers', ENG+'variables/request_body_parser.go')],
  tech='property-based testing: generated histories, with the file system and descriptors observed after every step'),
 dict(id='C22', title='Each transformation does what its name says to every byte string',
  st='lowercase, compressWhitespace, removeWhitespace, replaceNulls, removeNulls, urlDecode, urlDecodeUni and none change exactly the bytes they are to change and keep all others, whatever the encoding of the value; a list of transformations is applied in the order written, and applying it does not depend on earlier values.',
  over=[I], q='all byte strings, broken UTF-8 included, and all lists of transformations',
  why='The tests hold a table of short, mostly ASCII strings for each transformation.',
  files=[ENG+'transforms/lowercase.go', ENG+'transforms/compress_whitespace.go', ENG+'transforms/map_rune.go', ENG+'transforms/none.go', ENG+'sec_rule.go'],
  mech=[('SecRule.TransformString', ENG+'sec_rule.go'), ('transformations', ENG+'transforms')],
  tech='differential property-based testing against reference definitions'),
 dict(id='C23', title='URL decoding undoes every encoding and keeps what is malformed',
  st='Decoding restores every byte string from every way of percent-encoding it, upper and lower case digits, plus signs and, for the Unicode variant, %uXXXX with full width forms folded to ASCII included. Escapes that are malformed or cut off are kept as they are and do not disturb what follows, and decoding is done once.',
  over=[I], q='all byte strings with all choices of encoding for every byte, and all strings with malformed escapes',
  why='The tests hold a table of ten strings.',
  files=['utils/urlencode.go', ENG+'transforms/urldecode.go', ENG+'transforms/urldecode_uni.go'],
  mech=[('UrlDecode', 'utils/urlencode.go'), ('UrlDecodeUni', 'utils/urlencode.go')],
  tech='round-trip and differential property-based testing'),
 dict(id='C24', title='Numeric operators compare as integers do',
  st='eq, ge, gt, le and lt hold between value and operand exactly as between the integers they stand for, with signs, blanks around them and leading zeros; a value that is no number counts as 0, and one too large to represent as the nearest that can be. An operand that is no number is refused when the rule is made, and negation turns the verdict around.',
  over=[I], q='all values and operands, about the boundaries of 32 and 64 bits and beyond, and strings that are no numbers',
  why='The tests compare a few small numbers.',
  files=[ENG+'operators/compare.go', 'seclang/operators.go'],
  mech=[('OperatorCompare.Match', ENG+'operators/compare.go')],
  tech='differential property-based testing against arithmetic on integers of any size'),
 dict(id='C25', title='rx holds exactly if the regular expression occurs in the value',
  st='The operator rx, named or implied, holds for a value exactly if the regular expression written in the rule matches somewhere in it, byte for byte and for values of any length; an expression that is malformed is refused when the rule is made. The verdict does not depend on the values seen before.',
  over=[I], q='all regular expressions of a generated grammar and all values, many made to match or to just miss',
  why='The tests hold a few pairs of expression and value.',
  files=[ENG+'operators/rx.go', 'seclang/operators.go', 'seclang/parser/scanner.go'],
  mech=[('OperatorRx.Match', ENG+'operators/rx.go'), ('Scanner.ReadOperator', 'seclang/parser/scanner.go')],
  tech='differential property-based testing against an independent matcher'),
 dict(id='C26', title='Transactions of one engine do not affect each other',
  st='What fires in a transaction and what its results say is the same whether it runs alone or along with any other transactions of the same engine, taking turns or at the same time, also while rules are loaded into another engine. There are no data races, and running transactions does not change the engine or its rules.',
  over=[S, H, I], q='all sets of transactions on one engine, all orders of their steps, and concurrent schedules',
  why='The tests run one transaction at a time.',
  files=[ENG+'transaction.go', ENG+'sec_rule.go', ENG+'engine.go', ENG+'variables', ENG+'operators', 'seclang/rule_set.go'],
  mech=[('NewTransaction', ENG+'transaction.go'), ('Transaction.VariableCache', ENG+'transaction.go'), ('SecRule.Do', ENG+'sec_rule.go')],
  tech='property-based testing of interleaved and concurrent histories under the race detector; oracle: each alone'),
 dict(id='C27', title='No request, response or host can crash or hang the engine',
  st='Whatever the host hands over (missing urls and headers, malformed content types, cookies, encodings and multipart bodies, any bytes of any length) and in whatever order it makes its calls, no call panics or fails to return; without an engine or a rule set there is an error and no transaction. A result is intercepted only if a rule, a limit or the host gave a reason, and has status 200 otherwise.',
  over=[I, H], q='all contents of all parts of a transaction and all sequences of host calls, under generated rules',
  why='The tests feed well-formed requests in the natural order.',
  files=[ENG+'transaction.go', ENG+'variables', ENG+'buffer.go', ENG+'transforms', ENG+'operators'],
  mech=[('Transaction host calls', ENG+'transaction.go'), ('variables', ENG+'variables')],
  tech='structured fuzzing of hosts and contents with a watchdog and an invariant on results'),
 dict(id='C28', title='Looking does not change what is seen',
  st='The same transaction gives the same verdicts every time; rules without actions put anywhere, hosts that read the bodies between steps, and other ways of cutting and keeping the bodies change neither what fires nor any result. The host reads the bodies completely after any inspection, values read twice are the same, and the URL, the headers and the bytes a host hands over are left as they were and may be used for something else once a body append returns.',
  over=[I, H, P], q='all transactions and rule sets, all places for added rules, all points at which bodies are read, all ways of cutting them',
  why='The tests evaluate one variable once for a transaction.',
  files=[ENG+'transaction.go', ENG+'variables/request_body_parser.go', ENG+'buffer.go', ENG+'variables/filter.go'],
  mech=[('Transaction.VariableCache', ENG+'transaction.go'), ('requestBodyParse', ENG+'variables/request_body_parser.go'), ('buffer.initRead', ENG+'buffer.go')],
  tech='metamorphic property-based testing'),
 dict(id='C29', title='A request body that cannot be parsed is reported',
  st='When a request body that is to be inspected is malformed (escapes, cut off, end or boundary missing, part header), the transaction records the error at the first inspection and keeps it, and a well-formed body records none. Every rule that looks at a malformed body sees the same.',
  over=[I, C], q='all urlencoded and multipart bodies, well-formed or broken in one of six ways, in memory or in a file, under rules that look at them in any number',
  why='The tests parse well-formed bodies only.',
  files=[ENG+'variables/request_body_parser.go', ENG+'variables/query.go', ENG+'transaction.go'],
  mech=[('requestBodyParse', ENG+'variables/request_body_parser.go'), ('parseQuery', ENG+'variables/query.go')],
  tech='property-based testing with faults injected into generated bodies'),
 dict(id='C30', title='Parts of rules written in Go see where they are, and their jumps lead there',
  st='While a rule is evaluated, variables, transformations, operators and actions that a host wrote see the stage, the number of the rule in it, that rule (of a chain the whole chain), the number of the next rule or the end, the addresses, request, headers, response and body lengths as handed over last, and the data kept for this transaction only. A jump decides what is evaluated next: a rule of the stage, its end if there is no such rule, or a stage, clamped to those there are, that runs when it is reported, or at once if it is the present one. What they put into the intervention (status, url, pause, log, interception) is in the next result and not in later ones, and in all of them after an abort.',
  over=[I, C, H], q='all rule sets of such parts with jumps in any direction, redirections, aborts and kept data, and all histories of host calls and jumps',
  why='The tests call these functions on an empty transaction or with one rule; what they do in the middle of evaluations depends on rule sets and histories.',
  files=[ENG+'transaction.go', ENG+'sec_rule.go'],
  mech=[('Transaction.Next, JumpTo, JumpToPhase, NextPhase', ENG+'transaction.go'), ('Transaction.CurrentSecRule', ENG+'transaction.go'), ('Transaction.processPhase', ENG+'transaction.go'), ('SecRule.Do', ENG+'sec_rule.go')],
  tech='stateful property-based testing with host-written parts against a reference model of positions and jumps'),
]

NOTE = {'default': 'Random search: a violation is reported with a minimised, replayable case; silence is evidence only for the cases generated (counts, classes and samples in the evidence file). Trusts the reference in /verif/harness, Go and its standard library.'}
NOTE['C26'] = NOTE['default'] + ' Schedules are those the Go scheduler takes; data races are judged by the race detector on them.'
NOTE['C11'] = NOTE['default'] + ' Three known findings (stage aliases) are listed in KNOWN_FINDINGS.txt.'

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            assert p['st'].count('. ') <= 2, p['id']
            for x in p['files']:
                assert os.path.exists(os.path.join('/repo', x)), x
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['st'],
                'quantifier': {'over': p['over'], 'text': p['q']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p.get('observe', ['exported Go API of the packages modsecurity and seclang']), 'hook_needed': None},
            }) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 check.py --setup',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
            'technique': p['tech'], 'level': 'exploration',
            'level_note': NOTE.get(p['id'], NOTE['default']),
        } for p in PROPS],
        'not_applicable': [],
        'notes': 'No hooks: the checks use the exported API, built from /repo through a replace directive in /verif/harness/go.mod. Known findings and repairs: KNOWN_FINDINGS.txt.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')

main()

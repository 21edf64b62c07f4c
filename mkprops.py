#!/usr/bin/env python3
# Writes properties.jsonl (run by hand when the list changes).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","A transaction is accepted exactly when it balances",
 "Counting each posting at its cost when it has one (@ per unit, @@ in total, with the sign of the amount), a transaction is accepted exactly when its real postings sum to zero in every commodity, or what is left has both a positive and a negative commodity (an exchange), or exactly one real posting has no amount. Postings in brackets form a second group with the same balance rule (and must have amounts); postings in parentheses need an amount but never affect acceptance. A journal with a rejected transaction makes every command fail with a non-zero exit status.",
 ["inputs"],"all transactions: any number and order of postings, kinds, amounts, commodities, costs",
 "The rule quantifies over every combination of amounts, costs, kinds and commodities; the tests sample a handful of balanced journals and two unbalanced ones.",
 ["src/models/transaction.rs","src/models/balance.rs","src/models/mod.rs"],
 [("Transaction::balance","src/models/transaction.rs"),("total_balance","src/models/transaction.rs"),("Balance::can_be_zero","src/models/balance.rs")],
 ["exit status and output of check, balance, register"])
p("C02","A missing amount is filled with exactly what balances the transaction",
 "The single real posting without amount receives exactly the opposite of the sum of the other real postings (at cost), as one entry per commodity left over and none if nothing is left; the amounts that were written are never altered. The filled entries belong to the account, payee and tags of that posting, wherever it stands among the postings. Two or more postings without amount are an error.",
 ["inputs"],"all transactions with missing amounts, any position, any number of commodities, costs, virtual postings in between",
 "Exactness for every multiset of amounts cannot be sampled; tests have a few two-posting transactions.",
 ["src/models/transaction.rs"],[("fill of the empty posting in Transaction::balance","src/models/transaction.rs")],["register and balance output"])
p("C03","Balance assertions and assignments see the running balance in date order",
 "A posting 'amount = X' is accepted exactly when the balance of its account in the commodity of X, after this posting and all earlier real postings, is X; a posting '= X' without amount gets exactly the amount that makes it so and leaves other commodities alone. Earlier means earlier date, then earlier position in the journal, whatever the order of the dates in the files. With --no-balance-check these balances are not looked at: assertions are not verified and a posting '= X' counts as one without amount; everything else is still verified.",
 ["histories","inputs"],"all histories of transactions with assertions and assignments, in every order of entry",
 "A history property: the verdict depends on every previous posting; tests check one or two short files.",
 ["src/models/transaction.rs","src/models/mod.rs","src/models/balance.rs"],
 [("assertion branch of Transaction::balance","src/models/transaction.rs"),("stable sort by date in to_ledger","src/models/mod.rs"),("Balance equality","src/models/balance.rs")],["exit status of check/bal/reg; amounts in register"])
p("C04","The balance report shows the exact sums of the postings",
 "For every account the balance report shows, per commodity, the exact sum of the selected postings of that account (flat) or of that account and its descendants (tree), each under its full name; accounts whose sum is zero are left out unless descendants are shown. --depth N folds deeper accounts into their ancestor of depth N without changing any sum. The total, shown when more than one account is listed and --no-total is not given, is the sum of all selected postings.",
 ["inputs","configurations"],"all journals and all combinations of --flat, --depth, --no-total and filters",
 "Conservation over every account tree shape, commodity mix and option combination; the tests compare a few outputs.",
 ["src/commands/balance.rs"],[("aggregation, parent sums, depth folding, collapse and total in execute","src/commands/balance.rs")],["stdout of balance"])
p("C05","The register lists every posting once, in date order, with running totals",
 "The register shows every selected posting exactly once with the date and description of its transaction (the description being the payee unless another one is given after |), its account (in brackets or parentheses if virtual) and its amount, transactions by date and, on the same date, in journal order, postings with amounts in the order written. The running total after each line is exactly the sum, per commodity, of the lines so far, so the last one is the total of the balance report with the same options.",
 ["inputs","histories"],"all journals, any number of transactions, dates, commodities and filters",
 "Order stability and exact running sums hold over every history; tests look at a couple of registers.",
 ["src/commands/register.rs","src/models/mod.rs"],[("loop over transactions and running balance in execute","src/commands/register.rs"),("sort by date","src/models/mod.rs")],["stdout of register"])
p("C06","Reports contain exactly the postings selected by the options and query",
 "A posting is reported exactly when its transaction date is on or after --begin and before --end, it is real if --real is given, and it satisfies the query. Query terms match the account name (regular expression, ignoring case), or the payee after @, or a tag name after %; /regex/ matches the account respecting case and 'expr' introduces a value expression; 'and' binds tighter than 'or', and terms with nothing between them mean 'or'. Selection never changes the amounts of the postings that remain.",
 ["inputs","configurations"],"all journals, queries and option combinations",
 "The cross product of query shapes, options and postings is only sampled by the tests.",
 ["src/filter.rs","src/app.rs","src/parser/value_expr.rs"],[("filter","src/filter.rs"),("preprocess_query","src/filter.rs")],["stdout of balance and register"])
p("C07","Value expressions evaluate with exact arithmetic and usual precedence",
 "A value expression over amount, account, payee, date, note, tags, numbers, money, strings and regular expressions evaluates as written: parentheses, unary minus, * and /, + and -, comparisons, not, and, or, in decreasing precedence ('not' applying to a whole comparison) and associating to the left, with exact rational arithmetic. This holds equally in expr queries, in the filters and in the amounts of automated transactions; a posting is selected exactly when its expression is true. What has no meaning (adding or ordering amounts of different commodities, adding money and plain numbers, dividing by zero, comparing values of different kinds such as dates and strings) is an error and never a result.",
 ["inputs","programs"],"all expressions of the grammar and all postings",
 "Expressions are programs: the tests evaluate about ten of them.",
 ["src/parser/value_expr.rs","src/grammar/grammar.pest","src/filter.rs"],[("build_ast_from_expr","src/parser/value_expr.rs"),("eval","src/parser/value_expr.rs"),("grammar","src/grammar/grammar.pest")],["postings selected by expr queries; amounts of automated postings"])
p("C08","Currency conversion uses the latest known prices, directly or in chain",
 "With -X C every amount whose commodity is linked to C by prices is converted by the product of the most recent quote not in the future for each pair along the chain (inverted when quoted the other way round), and everything else is left as it is. Quotes come from P directives, from @ and @@ costs and from implicit two-commodity exchanges. Converted parents, children and total remain consistent with the converted sum of the postings.",
 ["inputs","histories"],"all price histories (order of entry, dates, directions, chains, duplicates) and all balances",
 "The price graph is arbitrary; the tests convert with one demo file.",
 ["src/models/price.rs","src/commands/balance.rs","src/models/mod.rs"],[("conversion / Graph::from_prices","src/models/price.rs"),("convert_balance","src/commands/balance.rs"),("implied prices in to_ledger","src/models/mod.rs")],["stdout of balance -X"])
p("C09","Amounts are exact and displayed correctly rounded",
 "Amounts of any size and number of decimals are read, added, multiplied, divided and compared exactly; rounding happens only on display, to the nearest unit of the last displayed digit (half away from zero), keeping sign and commodity. No sum of displayed or intermediate roundings ever replaces an exact sum.",
 ["inputs"],"all amounts: magnitude, decimals, sign; any number of additions",
 "Infinitely many amounts; tests print a few.",
 ["src/models/money.rs","src/models/balance.rs","src/parser/tokenizers/transaction.rs","src/parser/utils.rs"],[("Display for Money","src/models/money.rs"),("parse_amount","src/parser/tokenizers/transaction.rs"),("parse_rational","src/parser/utils.rs")],["stdout of balance, register, prices; Display of Money"])
p("C10","The output depends only on the input, never on hash order",
 "Running the same command on the same files always gives byte for byte the same output and exit status, whatever the seeds of the hash maps used inside.",
 ["schedules","inputs"],"all iteration orders of the internal hash maps, for all journals and commands",
 "A test run sees one random hash seed; order dependent results show up rarely.",
 ["src/models/mod.rs","src/models/balance.rs","src/models/price.rs","src/commands/balance.rs","src/list.rs"],[("ordered containers or sorting before output","src/models/balance.rs, src/list.rs, src/models/price.rs"),("sort of the accounts","src/commands/balance.rs")],["stdout and exit status of every command"])
p("C11","The order of entries and their split in files do not change the reports",
 "Reordering transactions that have different dates, or directives and prices among them, and moving consecutive entries into included files, leaves the balance report, the register and the listings the same. Transactions of the same date keep their relative order.",
 ["inputs","histories"],"all permutations of the entries and all ways to split them into files",
 "All permutations and partitions; no test permutes anything.",
 ["src/models/mod.rs","src/parser/mod.rs","src/parser/include.rs"],[("sort by date","src/models/mod.rs"),("two phase to_ledger","src/models/mod.rs"),("ParsedLedger::append","src/parser/mod.rs")],["stdout of every report"])
p("C12","Includes behave as if the files were pasted in place, and loops are errors",
 "An include directive, with a path or a glob relative to the including file, is equivalent to the contents of the matching files at that point, each time it appears and at any depth. A file that includes itself, directly or through others and however the path is written, makes every command fail with an error instead of looping, and so does a path (not a pattern) that does not exist.",
 ["inputs"],"all include graphs, path spellings and globs",
 "All graphs over files; tests have one include and one loop.",
 ["src/parser/include.rs","src/parser/mod.rs"],[("include::parse and seen_files","src/parser/include.rs")],["stdout and exit status of every command"])
p("C13","Names and aliases are resolved to one entity, ignoring case",
 "An account, commodity or payee written by its name or by any declared alias, in any case, is the same entity everywhere (sums, assertions, costs, prices, conversion, listings), shown with the name of its directive when there is one. A payee that matches the alias pattern of a payee directive is that payee, and a posting to an account ending in 'unknown' goes to the account whose payee pattern matches the payee of the transaction. Different names are never merged.",
 ["inputs"],"all alias declarations, spellings and uses, in any order",
 "All combinations of declaration order, case and use; tests look up two or three aliases.",
 ["src/list.rs","src/models/mod.rs","src/parser/tokenizers/account.rs","src/parser/tokenizers/payee.rs","src/parser/tokenizers/commodity.rs"],[("List::insert/get/add_alias","src/list.rs"),("to_ledger steps 1 and 2","src/models/mod.rs")],["stdout of every report"])
p("C14","Automated transactions add their postings to every matching posting, once",
 "For each posting written in a transaction that satisfies the filter of an automated transaction, its postings are added to that transaction: a number alone multiplies the amount of the matched posting, an amount with commodity is taken as it is, and an expression in parentheses is evaluated for the matched posting; tags in the comments of the automated transaction are added to the matched posting. Automated postings never trigger automated transactions, other transactions are not altered, and the result still has to balance.",
 ["inputs"],"all journals, filters and sets of automated transactions, wherever they are in the journal",
 "All pairs of filters and postings; tests have a few examples.",
 ["src/models/mod.rs","src/models/transaction.rs","src/parser/tokenizers/transaction.rs"],[("step 5 of to_ledger","src/models/mod.rs"),("get_filter_query","src/models/transaction.rs")],["stdout of register and balance"])
p("C15","Layout does not change meaning",
 "The same journal written with any amount of indentation, tabs or spaces between account and amount, trailing blanks, blank lines, comments, CR LF line ends, with or without a final newline, with dates separated by - / or . and with or without leading zeros, with the commodity before or after the number, gives the same reports. Two spaces or a tab end an account name; single spaces belong to it.",
 ["inputs"],"all layouts of all journals",
 "Layouts multiply; each test file has one.",
 ["src/parser/mod.rs","src/parser/chars.rs","src/parser/tokenizers/transaction.rs","src/grammar/grammar.pest"],[("Tokenizer","src/parser/mod.rs"),("parse_posting, parse_money, parse_amount","src/parser/tokenizers/transaction.rs")],["stdout of every report"])
p("C16","Malformed input is rejected, by every command alike, and never hangs",
 "On any input file every command terminates; if check accepts the file every other command succeeds on it, and if check rejects it every other command fails, with a non-zero exit status and without printing any report. A damaged line is never dropped or half read in silence: a file is accepted only with a meaning that contains all of its postings, with the whole of their amounts.",
 ["inputs"],"all files: every edit of one character (deletion, insertion, replacement, truncation) of representative journals",
 "All inputs, mostly malformed ones; tests have a dozen bad files.",
 ["src/parser/mod.rs","src/parser/chars.rs","src/parser/tokenizers","src/error.rs","src/main.rs","src/commands/check.rs"],[("tokenize and error","src/parser/mod.rs"),("exit status in main","src/main.rs")],["exit status and stdout of every command"])
p("C17","Listings show every account, payee, commodity and price exactly once",
 "accounts, payees and commodities list, sorted and without repetition, exactly the names that are declared or used in the journal (aliases and other spellings under their proper name). prices lists one line per P directive, per posting with cost (as price per unit, always positive) and per implicit exchange between two commodities, with its date.",
 ["inputs"],"all journals",
 "All journals; tests list a few.",
 ["src/commands/accounts.rs","src/commands/payees.rs","src/commands/commodities.rs","src/commands/prices.rs","src/models/mod.rs"],[("to_ledger","src/models/mod.rs"),("execute of each command","src/commands")],["stdout of accounts, payees, commodities, prices"])
p("C18","Tags attach to the postings they are written for",
 "A tag written in the comment of a transaction (on its first line or before its first posting) belongs to all its postings; one written in the comment of a posting, or in the lines that follow it, belongs to that posting only. ':a:b:' in a comment gives the tags a and b, 'name: value' gives a tag with that value, and %tag, has_tag and tag see exactly those.",
 ["inputs"],"all placements and forms of comments and tags",
 "All placements; tests have three or four.",
 ["src/models/comment.rs","src/models/mod.rs","src/models/transaction.rs","src/parser/tokenizers/transaction.rs"],[("Comment::get_tags","src/models/comment.rs"),("has_tag/get_tag","src/models/transaction.rs"),("comment placement in parse_with_grammar","src/parser/tokenizers/transaction.rs")],["postings selected by %tag and expr queries"])
p("C19","The init file supplies defaults that the command line overrides",
 "Options in the init file (the one given with --init-file, otherwise .ledgerrc in the home or current folder) have the same effect as if they were written on the command line, comments and blank lines in it have none, and an option present on the command line in any of its forms replaces the one in the file. A malformed init file is an error.",
 ["configurations"],"all init files and command lines",
 "All pairs of init files and command lines; tests have three init files.",
 ["src/app.rs"],[("run_app","src/app.rs")],["stdout and exit status"])
p("C20","Dates are calendar dates, in journals and on the command line",
 "Every valid calendar date is read as itself and every impossible one is rejected, in transactions, prices and options, including leap days and year ends; yyyy/mm on the command line means the first day of that month. Ordering, --begin, --end and date comparisons follow the calendar for all pairs of dates.",
 ["inputs"],"all dates",
 "All days and pairs of days; the tests use about ten dates.",
 ["src/app.rs","src/parser/utils.rs","src/grammar/grammar.pest","src/filter.rs"],[("date_parser","src/app.rs"),("parse_date","src/parser/utils.rs")],["register output; exit status"])
p("C21","The registry answers according to everything added to it",
 "After any sequence of insertions, aliases and merges, looking up a name or alias in any case gives the element it was declared for, and nothing else is found; searching by regular expression finds an element exactly when some name or alias matches at that moment, whatever was searched before. The number of elements and names is that of the distinct ones added, and the first definition of a name is kept, also when it is repeated by a merge, while the aliases of the repetitions are added to it.",
 ["histories"],"all sequences of operations",
 "All sequences of operations with caching in between; tests have two short sequences.",
 ["src/list.rs"],[("List and its match cache","src/list.rs")],["List API"])
p("C22","Money and balances obey the laws of exact arithmetic",
 "Balances form a commutative group per commodity: addition is commutative and associative, zero is neutral whatever its commodity, negation and subtraction are inverse, and commodities never mix. Two balances are equal exactly when they hold the same amount of every commodity. Scaling distributes over addition, comparison of amounts of one commodity agrees with their exact values and with equality, and is-zero and, for other amounts, is-positive and is-negative agree with the sign.",
 ["inputs","histories"],"all amounts and all sequences of operations",
 "Algebraic laws over all values; tests check a few sums.",
 ["src/models/money.rs","src/models/balance.rs"],[("Add/Sub/Neg/PartialEq for Balance","src/models/balance.rs"),("Mul/Div/Ord for Money","src/models/money.rs")],["Money and Balance API"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

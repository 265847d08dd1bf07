#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","A posting without an amount receives exactly the balancing amount",
 "When exactly one posting of a transaction has no amount and the values of all the other postings (the cost where one is given or implied, otherwise the amount) are in one commodity, that posting receives that commodity and exactly the negated sum of those values, whatever the signs, the order and the number of postings, so that the transaction sums to zero. The amounts, costs, accounts and notes of the other postings are not changed by this. A transaction with a single posting, with two postings without amounts, or with one such posting against several commodities is refused, never completed with a guessed amount.",
 ["inputs"],"every transaction: any number and order of postings, any quantities of either sign, any placement of the elided posting, with and without costs and commodities",
 "The tests complete a handful of two- and three-posting transactions whose explicit amounts are positive; no test sums several signs, uses a cost on an explicit posting in every position, or checks that the other postings are left alone.",
 ["src/xact.rs","src/balance.rs","src/amount.rs"],
 [("running per-commodity balance of the explicit postings","xact.rs finalize, first loop"),("negation of the single remaining balance","xact.rs finalize, null posting section; amount.rs inverse")],
 [("transaction postings","amount/cost per posting, filled in when the transaction is completed","xact.rs Xact.posts")],
 ["parse_text followed by the amounts of the journal's postings","the balance report"])
prop("C02","Implied cost of a transaction in two commodities",
 "When every posting has an amount, no posting states a cost and the amounts are in exactly two commodities with non-zero sums in both, every posting in the commodity of the first posting gets the cost: its quantity times the absolute ratio (other sum / this sum), in the other commodity, keeping the posting's sign; the postings in the other commodity get no cost. Each implied or stated cost also establishes a price for the posting's commodity on the transaction date, equal to the absolute cost per unit. Amounts are never changed, and postings of single-commodity transactions get no cost and establish no price.",
 ["inputs"],"every transaction with explicit amounts in one, two or more commodities, any number and order of postings and any signs",
 "The tests contain two or three such transactions, always with two postings and the same order; neither the ratio over several postings of one side, the sign of the cost nor the untouched side is checked.",
 ["src/xact.rs","src/pool.rs","src/balance.rs","src/amount.rs"],
 [("conversion ratio between the two sums","xact.rs finalize, two-commodity section"),("price recorded from the cost","xact.rs finalize, cost section; pool.rs exchange, add_price_struct")],
 (),["costs of the journal's postings after parse_text","recorded prices"],"price history is private: guarded hook")
prop("C03","Amounts and balances add up exactly per commodity",
 "Adding, subtracting, multiplying, dividing, negating and taking the absolute value of amounts gives exactly the decimal result with the right commodity (multiplication and division take the left operand's commodity, or the right one's if the left has none), and adding or subtracting amounts of different commodities is refused. A balance holds at most one entry per commodity; adding or subtracting an amount changes the entry of its commodity by exactly that quantity, creating it when missing, and leaves the entries of all other commodities, and their order, unchanged.",
 ["inputs","histories"],"all amounts (positive, negative, zero, with and without commodity) and every sequence of additions and subtractions on a balance",
 "Unit tests try one or two positive values per operator and balances with at most two entries; negative operands, missing commodities and the frame (other entries) are not exercised.",
 ["src/amount.rs","src/balance.rs"],
 [("operator implementations","amount.rs Amount, Quantity"),("entry lookup by commodity, update or append","balance.rs add, sub_assign, add_assign")],
 [("balance entries","list of amounts with distinct commodities","balance.rs Balance.amounts")],
 ["public amount operators","balances returned by accounts"])
prop("C04","Account balances and the balance report count every posting once",
 "An account's own balance is, for each commodity, the exact sum of the amounts of the postings made to that very account; its total is the sum of its own balance and of the totals of its sub-accounts, so each posting counts once in its account and once in each of its ancestors. The balance report lists every account exactly once, each parent before its children and siblings in name order, with the full account name and that total; the list of accounts contains the name of every account exactly once per account.",
 ["inputs","histories"],"every journal: any account tree (depth, number of siblings), any number of transactions and postings, any commodities",
 "The report tests compare fixed outputs of small journals with one posting per account and few siblings; sums over several postings, commodities and levels of a tree are not covered.",
 ["src/account.rs","src/report.rs","src/parser.rs","src/balance.rs"],
 [("own balance","account.rs amount"),("recursive total","account.rs total"),("pre-order traversal in name order","report.rs get_children_lines, account.rs flatten"),("postings linked to accounts","parser.rs link_posts_to_accounts")],
 [("account tree","accounts by name below the master account","account.rs Account.accounts"),("account postings","postings made to the account","account.rs Account.posts")],
 ["run_command(\"b -f ...\")","account totals of a parsed journal"])
prop("C05","An account name always resolves to the same single account",
 "Registering a colon-separated account name creates exactly the accounts on its path that do not exist yet and returns the one at its end; registering or looking up the same name again, at any later time, returns that same account and creates nothing. The account's full name is the registered name, its parent is the account of the name without the last part, and all other accounts keep their place, names and postings. Looking up a name that was never registered (also below existing accounts) reports that it does not exist and creates nothing.",
 ["inputs","histories"],"every sequence of registrations and look-ups of names with any number of non-empty parts",
 "Tests register two or three names, always look up existing ones, and never grow an account to many children.",
 ["src/account.rs","src/journal.rs"],
 [("search by name part, creation on demand","account.rs find_or_create, create_account"),("full name from the chain of parents","account.rs fullname"),("registration under the master account","journal.rs register_account, find_account")],
 [("account tree","accounts by name, linked to their parent","account.rs Account.accounts, Account.parent")],
 ["journal registration and look-up functions","account full names"])
prop("C06","Each commodity symbol denotes one commodity",
 "Every use of a symbol, in any place and at any later time, denotes the same commodity, which carries exactly that symbol; different symbols denote different commodities, and an empty symbol denotes no commodity. Using a known symbol creates nothing, using a new one adds exactly one commodity and one node in the price history, and leaves all the others as they were. Lot information given with a symbol is kept the first time and not replaced by later uses.",
 ["inputs","histories"],"every sequence of symbol uses, any number of symbols",
 "Tests create at most three commodities; identity is not compared after further ones were added.",
 ["src/pool.rs","src/commodity.rs"],
 [("look-up by symbol, creation on demand","pool.rs find_or_create, create, find")],
 [("commodities by symbol","map from symbol to commodity","pool.rs CommodityPool.commodities")],
 ["the pool's find and find_or_create","commodities of parsed amounts"])
prop("C07","Posting lines are split into exactly the parts written",
 "For every posting line made of an account name (any text without two consecutive spaces) and optionally, after two or more spaces, an amount written number-first or symbol-first, a lot price in braces, a lot date in brackets (in either order), a per-unit (@) or total (@@) cost and a note after ';', the scanner returns exactly the written account, quantity, symbol, lot price, lot date, cost quantity, cost symbol and kind of cost, independently of optional blanks around the parts. Parts that are not written are returned empty, and a note is never read as an amount. A line without an account is refused.",
 ["inputs"],"all posting lines of the documented grammar: all texts (including non-ASCII symbols and names), all combinations of optional parts and blanks",
 "The tests scan about a dozen literal lines; the combinations of optional parts, spacing, signs and multi-byte symbols are unbounded.",
 ["src/scanner.rs"],
 [("account separator","scanner.rs scan_post"),("amount in both orders","scanner.rs scan_amount, scan_quantity, scan_symbol"),("lot annotations","scanner.rs scan_annotations, scan_until"),("cost","scanner.rs scan_cost")],
 (),["postings produced by parse_text","the public amount scanner"],"scanner functions are crate-private: guarded hook")
prop("C08","Transaction headers are split into exactly the parts written",
 "For every header line DATE[=AUXDATE][ PAYEE][  ; NOTE], with or without a line end, the transaction gets exactly the written date, auxiliary date, payee and note without surrounding blanks; a part that is not written is reported as absent, and a missing payee is replaced by the documented placeholder. Nothing of one part is lost or becomes part of another, whatever the payee and the note contain (except that a payee cannot contain two spaces followed by ';').",
 ["inputs"],"all header lines of the documented grammar, all payee and note texts",
 "Seven literal header lines are tested, all with single-word or two-word payees and without line ends or unusual characters.",
 ["src/scanner.rs","src/xact.rs","src/parser.rs"],
 [("splitting at =, blank and '  ;'","scanner.rs tokenize_xact_header, scan_date, tokenize_aux_date, tokenize_payee, tokenize_note"),("tokens to fields","xact.rs create; parser.rs parse_date")],
 (),["transactions of a parsed journal"])
prop("C09","Price directives record exactly the written price",
 "For every directive 'P DATE [TIME] SYMBOL QUANTITY PRICE-SYMBOL', with any amount of blanks or tabs between the parts and with or without a line end, the price of one unit of SYMBOL in PRICE-SYMBOL becomes exactly QUANTITY at exactly that date and time (midnight when no time is given). Prices recorded for other commodities, other directions of the same pair, or other times stay as they were; a second price for the same pair and time replaces the first.",
 ["inputs","histories"],"all price directives of the documented form and every sequence of them",
 "Two literal directives are tested; the effect on previously recorded prices is not.",
 ["src/scanner.rs","src/pool.rs","src/history.rs"],
 [("splitting the directive","scanner.rs scan_price_directive, scan_price_element"),("date, time and amount of the price","pool.rs parse_price_directive"),("storing the price on the edge between the commodities","history.rs add_price")],
 [("price history","graph of commodities; per edge a map from time to price","history.rs CommodityHistory")],
 ["recorded prices"],"price history is private: guarded hook")
prop("C10","Price look-up returns the latest direct or the chained price",
 "When prices of the source in the target commodity are recorded, the look-up returns the one with the latest date and time, with exactly its quantity, in the target commodity. Otherwise, when the target can be reached over other commodities, the result is the product of the latest prices along a shortest chain, dated with the least recent of those prices (also when all lie in the future). Without any chain there is no result, and looking up never changes the recorded prices.",
 ["inputs","histories"],"every set of recorded prices (any graph of commodities, any order of recording, any dates) and every pair of commodities",
 "The tests record at most three prices in ascending order on a fixed graph of three commodities.",
 ["src/history.rs"],
 [("latest entry of the ordered map","history.rs get_latest_price, get_direct_price"),("shortest chain","history.rs find_price"),("product and least recent date over the chain","history.rs calculate_rate")],
 [("price history","graph of commodities; per edge a map from time to price","history.rs CommodityHistory")],
 ["results of the price look-up"],"price look-up is crate-private: guarded hook")
prop("C11","Exchanging an amount yields the right per-unit price and costs",
 "Exchanging an amount against a cost leaves the amount as it is and gives as final cost the cost itself, or, for a per-unit cost, the cost times the absolute quantity. The basis cost is the lot price times the quantity when the commodity carries a lot price, and otherwise the final cost. The new price offered for recording is the absolute cost per unit (the cost itself when it is per unit or the quantity is zero) in the cost's commodity, for the exchanged commodity at the given time, and no price is offered when it is zero or the two commodities are the same.",
 ["inputs"],"all amounts, costs (any sign, zero, with and without commodity), both kinds of cost, with and without lot information",
 "Only two lots with positive costs are tested; per-unit costs, zero quantities, signs and lot information without a price are not.",
 ["src/pool.rs","src/amount.rs"],
 [("per-unit cost, final cost, basis cost","pool.rs exchange")],
 (),["the pool's public exchange function"])
prop("C12","Written quantities, lots and costs reach the posting unaltered",
 "The amount of a posting has exactly the written decimal quantity and the commodity of the written symbol; a per-unit cost becomes the written cost times the posting's quantity and a total cost is kept exactly as written, both in the written cost commodity. Lot price and lot date are kept for the commodity exactly as written. A quantity that is not a valid decimal number is refused, and only a missing quantity means that the posting has no amount.",
 ["inputs"],"all decimal quantities representable with 28 digits, both signs, all symbols, both kinds of cost, with and without lots",
 "Tests use a few round numbers; no invalid numbers, long fractions or negative amounts with costs in both notations.",
 ["src/parser.rs","src/amount.rs","src/annotate.rs"],
 [("amount from tokens","parser.rs parse_amount_parts; amount.rs Quantity::from_str"),("cost from tokens","parser.rs parse_cost"),("lot from tokens","annotate.rs parse")],
 (),["postings of a parsed journal"])
prop("C13","Command lines are separated into commands and files without loss",
 "Arguments that do not start with '-' are the command words, in their order, wherever they stand among the options; every -f option names, through the argument that follows it, one input file, and the files are read in the order given, each exactly once. An option without its value and an option that is not known are refused instead of being ignored. The balance command reports over all postings of all files together.",
 ["inputs"],"all argument lists: any number and order of command words and -f options, including clustered short options",
 "Tests use one or two fixed argument lists with one or two files.",
 ["src/option.rs","src/lib.rs","src/main.rs"],
 [("separation of arguments","option.rs process_arguments, get_input_options"),("reading all files into one journal","lib.rs session_read_journal_files"),("dispatch on the command word","lib.rs run, execute_command")],
 (),["run, run_command"],"argument processing is private: guarded hook")
prop("C14","Reading a journal keeps every transaction, posting and note in order",
 "Reading text yields, after what the journal already contained, exactly one transaction per transaction block, in the order written, each with exactly its postings in the order written; comment lines and blank lines between transactions change nothing, and the last line needs no line end. A comment line inside a transaction becomes the note of the posting above it, or of the transaction when no posting precedes it. An included file's transactions appear at the place of the include, and reading several sources into one journal accumulates.",
 ["inputs","histories"],"all journals of the supported grammar: any number of transactions, postings, comments, blank lines, CR/LF line ends, includes",
 "Tests read journals with at most a few transactions of two to four postings.",
 ["src/parser.rs","src/journal.rs","src/xact.rs","src/lib.rs"],
 [("line dispatch","parser.rs parse, read_next_directive"),("transaction block","parser.rs create_xact, xact_directive, parse_post, parse_trailing_note"),("appending","journal.rs add_xact; xact.rs add_post")],
 [("transactions","list of transactions with their postings","journal.rs Journal.xacts")],
 ["the journal after parse_text / parse_file"])
prop("C15","Links between journal entities stay valid as the journal grows",
 "After reading any journal, every posting's transaction link leads to the transaction that contains it, its account link to the account registered under the written name, its commodity link to the pool's commodity with the written symbol, and each account's postings are exactly the journal's postings made to it, in order; every sub-account's parent link leads to the account that contains it. This holds however many transactions, postings, accounts and commodities are added afterwards.",
 ["histories","inputs"],"every journal and every continuation of it: any number of transactions, postings per transaction, sibling accounts and commodities",
 "Links are only tested on journals too small for any of the collections to be reallocated.",
 ["src/journal.rs","src/xact.rs","src/account.rs","src/pool.rs","src/parser.rs"],
 [("relinking when transactions move","journal.rs add_xact; xact.rs relink_posts, add_post"),("accounts and commodities at stable addresses","account.rs Account.accounts; pool.rs CommodityPool.commodities"),("posting links made when the transaction is complete","parser.rs link_posts_to_accounts")],
 [("links","addresses kept in postings, accounts and amounts","post.rs, account.rs, amount.rs")],
 ["addresses and contents reached through the links of a parsed journal"])
prop("C16","Transactions that do not balance are rejected",
 "A transaction whose postings all have amounts in one commodity that do not sum to zero is reported as an error and does not enter the journal.",
 ["inputs"],"all transactions without an elided amount",
 "No test covers it.",
 ["src/xact.rs"],[("none: the check is not implemented","xact.rs finalize")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')

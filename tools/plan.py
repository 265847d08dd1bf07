"""What decides each property."""
S = 'inputs are made from a seeded generator (structured journals, lines, operation sequences) together with the expected result, computed by an oracle written from the property; an input counts when its text is new and it is not an empty case'
PLAN = {}
def P(id, units, bounded, note, theorems=(), level='proof', secs=12, trusted=(), assumptions=()):
    PLAN[id] = dict(units=list(units), bounded=bounded, note=note, theorems=list(theorems), level=level, secs=secs, rule=S, trusted=list(trusted), assumptions=list(assumptions))
SRCH = 'the property is also run end to end on the real library with generated inputs for 12 s on six cores (thorough: 90 s); '
P('C01', ['amount', 'balance', 'finalize'], SRCH, 'xact::finalize carries its full contract for the transactions of the property: which are refused, the amount of the elided posting, every other posting unchanged.', ['fin_end', 'bal_of_len'])
P('C02', ['amount', 'balance', 'finalize', 'pool'], SRCH, 'xact::finalize carries its full contract for the transactions of the property: implied costs at the ratio of the sums, written costs kept, the prices recorded posting by posting.', ['fin_end', 'two_costs', 'mid_bad'])
P('C03', ['amount', 'balance'], SRCH, 'Every operation of Amount, Quantity and Balance carries its full functional contract.')
P('C04', ['balance', 'account', 'report'], SRCH, 'Account::amount gives the sums of the postings of the account, total those of the account and everything below it (tot_counts: each account once); the lists and both reports run over fl(master): every account once (fl_all), each before its sub-accounts, these by name, with full name and total. Who puts a posting into which account is C15.', ['tot_counts', 'fl_once', 'fl_all', 'full_name_master', 'names_props'])
P('C05', ['account', 'report'], SRCH, 'find_or_create, create_account, find_account, fullname and the journal functions over them carry contracts on the tree of accounts; theorems: a registered name resolves to the account returned, again and later, a known name creates nothing, only accounts of the path are new, everything else is kept, full names and parents are those of the name (parts not empty).', ['registered', 'find_kept', 'others_absent', 'full_name_master', 'parent_name', 'names_kept', 'root_kept'])
P('C06', ['pool'], SRCH, 'The pool functions preserve an invariant (one address per symbol, one node per commodity); find_or_create returns the address under the symbol and moves nothing; theorem symbols_interned.', ['symbols_interned', 'pool_ext_trans'])
P('C07', ['scanner'], SRCH, 'The scanner functions carry contracts that fix their result for every text; round-trip theorems connect them to written postings.', ['post_rt', 'post_rt_note', 'post_rt_account', 'post_no_account', 'amount_rt', 'annot_rt', 'cost_rt'])
P('C08', ['scanner', 'journal'], SRCH, 'The header scanner carries contracts that fix its result for every text; round-trip theorem; Xact::create turns the parts into the fields of the transaction.', ['header_rt'])
P('C09', ['scan_price', 'price_dir', 'history'], SRCH, 'The directive scanner carries contracts that fix its result for every text; parse_price_directive records exactly one price, under the written date, time, commodities and number, and leaves all others; round-trip theorem.', ['price_rt', 'price_put_added'])
P('C10', ['history'], SRCH, 'find_price: no answer exactly when no chain of prices exists; otherwise the product of the latest prices along a shortest chain, dated by the oldest of them.', ['chain_step', 'direct_rate', 'walk_edge'])
P('C11', ['amount', 'pool', 'finalize'], SRCH, 'exchange carries its full functional contract.', ['abs_mul', 'quot_props'])
P('C12', ['amount', 'parts', 'posting'], SRCH, 'Contracts on the amount operations, Quantity::from_str, parse_amount_parts, parse_amount, parse_cost and Annotation::parse: the parts of a posting become exactly the amount, cost and lot written; parse_post puts them into the posting added to the transaction, and the lot into the pool.')
P('C13', ['option'], SRCH, 'process_arguments and get_input_options: the command words are exactly the arguments that are neither options nor values, the files exactly the values of the -f options, everything else is refused (and nothing but that); run and execute_command: one journal into which exactly these files were read, in order, each once, is what the command reports on. Reading a file and the reports are opaque here (C14, C04).', ['option_word'])
RD_ASS = ['a read never fails and lines are as BufRead::read_line gives them', 'a file does not include itself, directly or through others', 'paths are text', 'a vector of transactions does not move its elements while one of them is completed']
P('C14', ['reader', 'include', 'posting', 'journal', 'parts'], SRCH, 'items(text) says which transactions a text holds, with their postings and notes; the contracts of Parser::parse and of everything it calls, up to Journal::read, parse_text and parse_file, say that the journal gains exactly these, completed, in this order, after what it held (gains), and which texts may be refused. Theorems on items: one transaction per block, ended by a blank line or by the text; blank and comment lines change nothing; includes stand at their place; one posting per posting line, in order; reading twice accumulates (gains_trans). The contracts of the scanner, of completing and of price lines are used as proved for C07, C08, C01, C09.', ['block_read', 'block_last', 'skip_read', 'include_read', 'fold_posts', 'gains_trans', 'x_read'], assumptions=RD_ASS)
P('C15', ['reader', 'include', 'posting', 'journal', 'account', 'parts', 'pool', 'finalize'], SRCH, 'jinv(journal): every posting links to the transaction that holds it, to an account of the tree and to commodities of the pool; the postings of every account are exactly those of the journal made to it, in order; parents and children agree. Every function that reads or adds keeps it (Parser::parse, xact_directive, create_xact, parse_post, add_xact, register_account, link_posts_to_accounts, ...), and gains says that account, commodities and accounts already there stay the same objects.', ['x_read', 'enter_step', 'post_step', 'fin_step', 'added_ok', 'gains_trans', 'find_grew'], assumptions=RD_ASS)

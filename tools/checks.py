NA={}
BB="Random cases from VERIF_SEED against the real command; the oracle is an independent model over exact integers. "
c("C01","accept/reject and elided-amount oracle over generated ledgers run through coin",BB+"Assumes the ledger syntax used is the documented one.")
c("C02","reference-model oracle over the printed balance reports",BB+"Price chains in generated ledgers are unique, so that totals are determined.")
c("C03","stderr event monitor: warnings against independently computed running balances",BB+"Same-day postings are taken in load order (sorted file names, position).")
c("C04","reference-model oracle over printed registers",BB+"Postings of one day come in load order; shortened labels are compared up to shortening.")
c("C05","conservation oracle over aggregated registers (text, csv, json)",BB+"Accounts in one report share a commodity; foreign postings are converted.")
c("C06","round-trip oracle: ledger meaning before and after formatting, idempotence",BB+"format drops non-transaction entries of a file by design.")
c("C07","differential oracle: ledger before and after modify, selection by independent model",BB)
c("C08","fault injection by a ptrace tracer at every mutating system call, file-content monitor",
  "Every mutating call of an undisturbed run is failed, cut short and used as kill point (sampled to 60 per case in the quick tier); of power loss only the order fsync before rename is checked.","fault_enumeration")
c("C23","clause results compared with the command run by itself; file snapshots around the update",BB+"Clauses use read-only commands.")
c("C09","exact rational oracle over the exported Amount functions under generated operands","Random and boundary amounts from VERIF_SEED; the process linking /repo's package also reports a library exit as a violation.")
c("C10","calendar oracle over the exported date parser under generated entries and current days","A month or year offset onto a day that does not exist may clamp or overflow.")
c("C11","independent matcher over account expressions, checked on three commands",BB)
c("C12","price-chain oracle: every total must be the value of some chain of latest prices, independent of order",BB+"Any simple chain is allowed when there is no direct price.")
c("C28","fault injection by a ptrace tracer at every file operation of a run, with a monitor of exit status, output and files","Standard error is not watched; errors while expanding wildcards in includes are not injected.")
c("C27","in-process state monitor: invariants of posting lists after every operation of random histories","Histories of exported calls from VERIF_SEED.")

c("C13","metamorphic oracle: every report of one ledger in differently split directories, environments and working directories is the same",BB)
c("C14","independent tag reader over generated notes, checked on tags, filters and totals",BB+"The same key given several times in one entry is unspecified.")
c("C15","malformed-entry generator and mutation against an independent strict reader",BB+"Redeclared commodities and accounts and the format of another commodity are unspecified.")
c("C24","independent computation of duplicates, unbalanced transactions and bad conversions, compared with the printed blocks",BB)
c("C25","reference-model oracle over printed listings",BB)
c("C26","location monitor: every printed file:line must be where the harness put the entry",BB)
c("C16","record-by-record oracle: an independent evaluator of generated csv sources, rules and records",BB+"A note of the record may replace or join the notes of the rule.")
c("C17","statement oracle: the transactions computed from generated OFX files, compared with the import, well formed and with BMO's flaws",BB+"Payee is NAME of a card's transaction and NAME and MEMO of a bank's.")
c("C18","ledger model over histories of overlapping imports, checks on output and on the reported duplicates",BB)
c("C19","independent rule interpreter, before and after replacing the rule file by its own dump; damaged rule files",BB)
c("C20","conversion oracle: an own reader of the output and coin's balances against generated GnuCash books",BB+"Transaction notes kept in GnuCash slots are not covered.")
c("C21","generator oracle: an own statement of the rules judges every generated transaction; output modes compared at equal seeds",BB+"Equal seeds through GODEBUG=randautoseed=0 and runs within one second.")
c("C22","document oracle: an own HTML tokenizer and strict JSON reader against the ledger model, with hostile texts",BB+"The viewer itself is C29; the balance of a failed assertion may be the asserted or the computed one.")
c("C29","display oracle: the viewer runs in a DOM of our own under random user actions and time zones; every display is compared with the ledger model",BB+"d3 is replaced by a stand-in of our own, layout and axes are not judged (bars of the aggregated chart are); the rates at a date are those of the price histories within the window the viewer documents in its code.")
c("C31","system call monitor: every call of a traced program that changes, connects or runs something is judged by path, and the tree around it is compared before and after",BB+"Temporary files that are removed again may exist in the directory of a file that may change and in TMPDIR; quotes are C30.")
c("C32","metamorphic and refusal monitor: outputs and files of random spellings of one invocation are compared with the plainest one; every flawed invocation must exit non-zero with a message, no report and no changed file",BB+"Malformed means as generated: values that no reading of the documentation allows; surplus arguments are left open.")
c("C30","market oracle: a stand-in for the market behind a loopback HTTPS proxy answers and fails at random; printed price entries are compared with its answers and loaded back",BB+"The provider's own client library is used as it is; one commodity asked at a time.")

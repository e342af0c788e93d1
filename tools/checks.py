c("C01", ENUM + " (C expression evaluator)",
  "Every expression tree within the bounds, in several spellings, gives the value of an independent C evaluator; expressions beyond the size bound are not covered. Trusts the reference evaluator (harness/ref/cexpr.go).")
c("C02", ENUM + " (all token strings up to a length)",
  "Every token string within the bound is accepted or rejected as the C grammar says and never panics. Trusts the reference parser.")
c("C03", HIST,
  "Every sequence of evaluations within the bound, run in fresh processes, gives for each expression what it gives alone.")
c("C04", ENUM + " (catalogue model)",
  "Every catalogue, rule and count within the bounds gives the form the model selects.")
c("C05", ENUM + " (catalogue model)",
  "Every set of confusable messages within the bounds is looked up under every pair of context and id.")
c("C06", HIST,
  "Every history of adds and queries within the bound agrees with a model that recomputes from the current header entry.")
c("C07", ENUM + " (formats and argument lists)",
  "Every format of up to a bounded number of pieces with every argument list in the bounds formats as fmt.Sprintf does with the arguments the verbs consume; the memory behind the argument slice is watched.")
c("C08", ENUM + " (PO texts and layouts)",
  "Every PO text built from the stated pieces, in every layout within the bounds, reads back as the messages it was built from.")
c("C09", ENUM + " (all escape strings up to a length)",
  "Every string of raw and escaped pieces within the bound decodes as an independent C decoder says, in every field.")
c("C10", ENUM + " (all texts up to a length)",
  "Every sequence of lines, every short byte string and every truncation and mutation within the bounds; the result is classified by an independent reader.")
c("C11", ENUM + " (catalogues)",
  "Every catalogue within the bounds survives saving as PO and reading, and the second save is byte identical.")
c("C12", ENUM + " (catalogues)",
  "Every catalogue within the bounds is saved as PO and POT text that an independent strict gettext reader accepts and reads as the same strings.")
c("C13", ENUM + " (MO files and layouts)",
  "Every MO file an independent writer builds from the message pool in every layout within the bounds reads as the messages it holds.")
c("C14", ENUM + " (all truncations, word and byte corruptions)",
  "Every truncation and every single (thorough: double) corruption of the sample files is classified by an independent strict reader; memory use is measured.")
c("C15", ENUM + " (catalogues)",
  "Every catalogue within the bounds answers every lookup alike before and after being saved as MO.")
c("C16", ENUM + " (catalogues)",
  "Every catalogue within the bounds is saved as a file that an independent strict MO reader accepts and reads as the same pairs.")
c("C17", ENUM + " (catalogues and templates)",
  "Every catalogue and template text within the bounds.")
c("C18", ENUM + " (orders of addition and of map iteration)",
  "Every order of addition and every start of the runtime's map iteration for every small catalogue within the bounds gives the same bytes, in the documented order. The runtime's iteration start is controlled by an overlay of internal/runtime/maps.")
c("C19", "model checking: exhaustive fault injection (every failure point of the destination)",
  "Every catalogue in the bounds, saved to a destination that fails in every way at every byte or call.")
c("C20", HIST + " against a state model",
  "Every history of the stated operations up to the bound, with every query compared after each history.")
c("C21", HIST + " against a state model of every handle",
  "Every history of operations, derivations and probes up to the bound over up to four handles.")
c("C22", ENUM + " (every call in every state)",
  "Every shorthand call in every reachable selection of domain and locale within the bounds.")
c("C23", ENUM + " (directory trees)",
  "Every tree of up to three files over 21 places and 8 kinds of content, in memory and on a real file system.")
c("C24", "model checking: exhaustive fault injection (every operation of the file system, every byte of every read)",
  "Every placement of up to two (thorough: three) faults over the operations of loading a tree of eight files, every set of broken paths, every read error position.")
c("C25", HIST + " against a state model",
  "Every chain of storing, deriving and reading up to the bound, under every global state of the menu.")
c("C26", ENUM + " (spellings of locale names)",
  "Every spelling within the bounds of 66 languages; what the environment means is left to the detection package for names with a modifier but no encoding.")
c("C27", ENUM + " (headers, cookies and supported sets)",
  "Every header of up to a bounded number of wishes or tokens, every cookie situation and every supported set of the menu. Which supported locale is closest is what golang.org/x/text/language says.")
c("C28", "model checking: stateless exploration of goroutine schedules (controlled scheduler on instrumented code, preemption bound) with a race detector that observes each schedule",
  "Every pair (and chosen triples) of 30 operations under every schedule within the preemption bound at statement granularity, from cold state; the library is instrumented through an overlay, package sync is replaced by cooperating primitives, and hand-overs create no happens-before edge, so the race detector judges the code's own synchronisation. Third-party code runs atomically.")
c("C29", ENUM + " (all token strings up to a length)",
  "Every token string within the bound and every structured list parses as an independent reading of the documented form says or is refused. Signs, zeros, leading zeros and names that are no identifiers are not documented: either answer is allowed.")
c("C30", ENUM + " (templates by construction)",
  "Every template built from the construct and call menus within the bounds is scanned by the tool's own entry; the messages and lines it must list are known by construction.")
c("C31", HIST + " against a merging model",
  "Every sequence of colliding calls up to the bound; the written file is read by an independent strict reader and compared with the model, warnings with the clashes.")
c("C32", ENUM + " (map iteration orders)",
  "Every start of every map iteration within the bounds (runtime overlay) gives the same bytes but the creation date. The hash seed of maps with more than eight entries is not enumerated.")
c("C33", "model checking: exhaustive fault injection (every combination of bad inputs, options and destinations, every file size limit)",
  "The built command and the library entry run in every combination of faults within the bounds; status, message and what is left in the output are judged.")
c("C34", HIST + " against a state model",
  "Every history of additions and loads up to the bound, and every lookup call of the menu through sets, derived sets and the package with a translator that records what it is asked.")
c("C35", ENUM + " (command lines and environments)",
  "Every kind of command line with every combination of the stated deviations, run as a process. The wording of messages is taken from a run in the C locale, so it is not judged itself.")
c("C36", ENUM + " (templates by construction, carried through the whole tool chain and executed)",
  "Every template built from the menus within the bounds is extracted, translated by an independent reader and writer, loaded and executed with text/template; every lookup is compared with the oracle and checked to be in the POT.")
c("C37", HIST + " against a model of each catalogue",
  "Every history of the stated operations up to the bound over two catalogues (one shared, reused buffer) and two sets (in memory and on disk).")
c("C38", ENUM + " (requests) and " + HIST + " against a state model",
  "Every request of the menus goes through handlers (in both orders of the middleware) against four global sets, and every history of arrivals, beginnings and changes of the global set up to the bound is compared with the model after each step.")
c("C39", ENUM + " (environments) and " + HIST + " against a model of the environment",
  "Every assignment of the menus' values to the four variables, every configuration file of up to three lines and every history up to the bound runs against the real detection; a known finding (modifiers) is identified by the value that names the region.")
c("C40", "model checking: exhaustive enumeration of failing inputs and fault injection at every byte, on the real code",
  "Every failing input of the menus and every fault is produced; the error chain and the text are compared with the cause, the line or the name that the construction put there. Wording is not judged.")

TESTS = "The existing tests call the function on a handful of fixed inputs and mostly print the results without asserting them"
RM = "runtime monitoring of generated calls against an independent reference"
N = "Held on the executions driven by the seeded workload (counts in the evidence file), judged by a reference written for this check alone; paths the workload does not drive are not covered. "

prop("C01", "Generated mine layouts have the requested mines, safe start and no bias",
 "A generated layout has exactly the requested size and number of mines, numbers that match the mines, and no mine on the start cell. The opening variant also keeps the neighbours of the start free. Every layout allowed by these rules is equally likely.",
 ["inputs"], "every board size, mine count that fits outside the start (or the opening) and start cell (edges, corners, one cell wide, nearly full), and the distribution over repeated calls",
 TESTS + "; a distribution cannot be seen in one call.", [U], [("uniform layout", U + " laymine"), ("opening layout", U + " laymine_op")],
 "runtime monitoring of generated layouts: invariant oracle plus statistical oracle over the observed distribution",
 N + "Distributions are compared on small boards and at 7 standard deviations, so a bias below that is not seen.")

prop("C02", "Board metrics equal their definitions",
 "For every correctly numbered board the number of openings, the number of islands, the 3BV and the counts of each number equal their mathematical definitions. The result is the same for plain and for protected boards.",
 ["inputs"], "all correctly numbered boards of any size and density, including snakes, rings, empty and full boards",
 TESTS + " on two or three boards; merging and island errors need particular shapes.", [U], [("openings", U + " cal_op"), ("islands", U + " cal_isl"), ("3BV", U + " cal_bbbv, cal3BVonIsland"), ("number counts", U + " cal_cell_nums")],
 RM, N)

prop("C03", "Cached board and position objects answer the same in every query order",
 "An object that caches metrics or deductions answers each query with the value that a fresh object for the same position would give, whatever queries, repetitions, clones or replacements of the position came before. The lists of safe and mine cells contain exactly what the respective deduction level can prove.",
 ["histories"], "every sequence of queries, repeated queries, clones and replacements",
 "The tests query each field once in one order, so stale or unset cache entries never show.", [B], [("cached metrics", B + " Board"), ("cached deductions", B + " GameBoard")],
 "runtime monitoring of query histories against a stateless reference model", N, state=[("has_cal_*", "whether a cached value is valid", B)])

prop("C04", "A protected board is indistinguishable from the plain one it wraps",
 "Reading a protected board by index, by row, by iteration or by conversion gives the values that were put in, for every storable cell code, and an algorithm gives the same answer on it as on the plain board. Its memory never holds the plain values.",
 ["inputs"], "all boards over all storable cell codes and every access path",
 "The tests read single cells of one board.", [S], [("encoding", S + " SafeBoard"), ("row iteration", S + " SafeBoardRow")],
 RM, N)

prop("C05", "Equation systems represent exactly what the visible numbers say",
 "The equations built from a visible board have exactly the unopened, unmarked cells next to numbers as unknowns, one equation per constraining number with the marked mines already subtracted. Splitting them into segments loses nothing, keeps cells of different segments independent, and grouping segments into regions puts two segments together exactly when unopened cells connect them.",
 ["inputs"], "all legal visible boards with correct marks: any size, any number of segments and regions",
 TESTS + "; segment and region errors need several frontiers that nearly touch.", [U], [("one system", U + " refresh_matrix"), ("segments", U + " refresh_matrixs"), ("regions", U + " refresh_matrixses"), ("splitting", U + " chunk_matrix")],
 RM, N)

prop("C06", "Deduction never calls a cell safe or mined unless it must be",
 "Every cell that any deduction engine reports or marks as safe is safe in every layout that matches the visible numbers, and likewise for mines. Applying an engine to an equation system leaves a system with the same solutions for the remaining cells.",
 ["inputs", "histories"], "all legal visible boards and all sequences of engine calls on one system",
 TESTS + "; an unsound deduction needs particular overlapping numbers.", [A, U], [("single numbers", A + " solve_direct"), ("pairs of numbers", A + " solve_minus"), ("enumeration", A + " solve_enumerate"), ("marking", A + " mark_board")],
 "runtime monitoring of deduction traces: solution-set equivalence against exact counting", N + "Solution sets are compared by exact counting with bounded size.")

prop("C07", "Full deduction finds every cell the numbers decide",
 "Running all deduction levels reports exactly the border cells on whose state all layouts matching the visible numbers agree, each once. After marking them nothing further is deduced.",
 ["inputs"], "all legal visible boards whose border segments are within the documented limit of 55 cells",
 TESTS + "; a missed deduction is invisible without an exact reference.", [A, U], [("all levels", A + " get_all_not_and_is_mine_on_board"), ("enumeration", A + " solve_enumerate")],
 RM + " (exact counting of matching layouts)", N + "Segments up to 55 cells and bounded enumeration size.")

prop("C08", "Mine probabilities are exact",
 "The mine probability of each border cell, of the remaining unopened cells, and the smallest and largest possible mine counts equal those of the uniform distribution over all layouts that match the visible board and the given mine count or density. Per-cell probabilities on the board agree with the listed ones.",
 ["inputs"], "all legal visible boards with marks, every feasible mine count and density",
 TESTS + " for two positions.", [A, U], [("probabilities", A + " cal_possibility"), ("per-cell table", A + " cal_possibility_onboard"), ("counting", U + " cal_table_minenum_recursion"), ("adding an equation", U + " enuOneStep")],
 RM + " (exact posterior, brute force on small boards)", N + "Agreement within 1e-9; positions with a single segment too expensive to enumerate are skipped.")

prop("C09", "Impossible positions give an error, never a crash or a non-number",
 "For a position that no layout with the given mine count matches, the probability functions and the marking function return an error instead of crashing, hanging or giving infinities or non-numbers. For a position that some layout matches they succeed.",
 ["inputs"], "all boards of arbitrary numbers and marks, and wrong mine counts",
 "The tests contain no impossible position apart from one or two.", [A, U], [("error codes", A + " cal_possibility, mark_board, solve_direct")],
 RM + " with crash and overflow detection (debug assertions, unwind capture)", N)

prop("C10", "Opening probabilities are exact",
 "The probability that a cell is an opening, for any unopened cell of a visible board, equals its share among all layouts that match the board and the mine count.",
 ["inputs"], "all legal visible boards, mine counts and queried cells",
 TESTS + " for one position.", [A], [("opening probability", A + " cal_is_op_possibility_cells")],
 RM + " (exact posterior of the surrounding cells)", N + "Agreement within 1e-8.")

prop("C11", "A layout is called solvable exactly when it can be cleared without guessing",
 "The verdict on a layout and a first click says solvable exactly when repeatedly opening every cell that the visible numbers prove safe clears the board. A layout in which the structure filter finds a dead guess can never be cleared without guessing and the filter finds every one of the documented templates, anywhere and on any side.",
 ["inputs"], "all layouts from 5x5 on, all first clicks on openings, layouts with planted dead-guess shapes and near misses",
 TESTS + " on one board; a wrong verdict needs boards that hinge on enumeration.", [A, U], [("play-out", A + " is_solvable"), ("structure filter", U + " unsolvable_structure")],
 RM + " (independent no-guess player)", N)

prop("C12", "No-guess generators report success only for guess-free layouts",
 "Whenever a no-guess generator reports success, its layout has the requested size and mine count, an opening at the start cell and can be cleared from there without guessing. Every returned layout has the requested mines and right numbers, and the filtering generators succeed as often as their number of attempts implies and the adjusting one nearly always.",
 ["inputs", "schedules"], "all sizes, mine counts, start cells and attempt limits, and all interleavings of the parallel generator's workers",
 "The tests run each generator once and print the board; a lost success depends on the order in which workers finish.", [A], [("filtering", A + " laymine_solvable"), ("parallel filtering", A + " laymine_solvable_thread"), ("adjustment", A + " laymine_solvable_adjust")],
 "runtime monitoring of generator calls under thread schedules: replay by an independent no-guess player, success-rate statistics", N + "Success rates are compared at 8 standard deviations.")

prop("C13", "A guess is judged by what the visible numbers prove",
 "Opening a cell is judged: already open, proven safe, proven mine, a needless guess when another cell of the same unopened region is proven safe, and a necessary guess otherwise. A cell is called decidable exactly when the numbers prove it safe or mined, and the player's own marks never influence either answer.",
 ["inputs"], "all positions a player can reach, all queried cells (border, interior, opened), all right and wrong player marks",
 TESTS + " on two positions.", [A, U], [("guess verdict", A + " is_guess_while_needless"), ("decidability", A + " is_able_to_solve"), ("region search", U + " find_a_border_cell")],
 RM + " (exact counting of matching layouts)", N)

prop("C14", "Revealing cells opens exactly what the rules say",
 "Revealing cells shows their numbers and floods outward from empty cells through unflagged unopened cells, and opens nothing else. A revealed mine is shown as stepped on and then every wrong flag is shown as wrong; the result does not depend on the order of the clicks or on plain versus protected storage.",
 ["inputs", "histories"], "all boards, all sequences of click lists with flags coming and going",
 TESTS + "; flag and flood interaction needs particular histories.", [U], [("reveal", U + " refresh_board")],
 RM, N)

prop("C25", "The expert 3BV sampler follows the 3BV distribution of expert layouts",
 "The sampler records every sampled expert layout exactly once, under its 3BV, and the histogram follows the distribution of 3BV over uniformly drawn expert layouts with a safe start cell.",
 ["inputs", "schedules"], "all start cells and sample sizes, any scheduling of the worker threads",
 "No test looks at the histogram; a distribution cannot be seen in one sample.", [A], [("workers", A + " sample_3BVs_exp"), ("worker body", A + " laymine_study_exp")],
 "runtime monitoring: conservation of samples and two-sample statistics against an independent sampler", N + "Rejected at 7 standard deviations.")

prop("C28", "Merging interchangeable cells and counting solutions are exact",
 "Cells that occur in the same equations are merged into one group, each cell in exactly one group, and the merged system has the group sizes as coefficients. The solution table gives, for every mine count, the exact number of solutions and of solutions with a given cell mined, and an error exactly when there is none; adding an equation to a table of assignments keeps exactly the assignments that satisfy it, each once.",
 ["inputs"], "all equation systems with 0/1 coefficients and at most 8 cells per equation",
 TESTS + " on one system.", [U], [("merging", U + " combine"), ("counting", U + " cal_table_minenum_recursion"), ("adding an equation", U + " enuOneStep")],
 RM + " (brute force over all assignments)", N)

prop("C29", "A chord is judged locally best exactly when no neighbouring chord beats it",
 "A legal chord is judged good exactly when it opens at least one cell and none of the legal chords directly above, below, left or right of it opens more cells, anywhere on the board including its edges.",
 ["inputs"], "all visible boards with right flags and all legal chords on them",
 "The tests judge chords on one board away from the right edge.", [U], [("verdict", U + " is_good_chording")],
 RM, N)

MB, VB = "base/src/videos/minesweeper_board.rs", "base/src/videos/base_video.rs"
EV, AV, RV, MV, AM = ["base/src/videos/" + x for x in ("evf_video.rs", "avf_video.rs", "rmv_video.rs", "mvf_video.rs", "analyse_methods.rs")]
prop("C15", "Every mouse history plays by the rules and its counters add up",
 "After every mouse event the opened cells, flags, game state, result, mouse state and event verdict are those that the rules of Minesweeper prescribe for that history of clicks, chords, flags, pre-flags and outside events. The left, right, double, effective-click, flag and solved-3BV counters equal their definitions at every moment, also after a reset or a new game. A game is won exactly when every safe cell is open and shown rightly, and lost exactly when a mine is opened.",
 ["histories"], "all sequences of mouse events (both buttons, middle button, drags, releases outside the board, chord variants), positions, boards, resets and layouts set after the first click",
 "The tests replay about ten fixed click lists; button state and counter errors need particular interleavings of both buttons, drags and outside releases.", [MB, VB],
 [("button and cell rules", MB + " MinesweeperBoard::step, left_click, chording_solve, right_click, pre_flag"), ("live game wrapper", VB + " BaseVideo::step_game_state, step, reset, set_board")],
 "runtime monitoring of live games: online conformance to a reference rule model after every event", N, state=[("mouse_state", "which buttons are held and why", MB), ("game_board_state", "phase of the game", MB), ("counters", "left, right, double, ce, flag, bbbv_solved", MB)])

prop("C16", "The recorded time, path and rates of a live game match what happened",
 "A live game is timed from the first click that starts it to its end: times shown, stored with events and reported as result follow the clock, never run backwards and freeze at the end. Countdown, path length, per-event counters and the rates derived from them equal their definitions over the recorded events at every moment. Querying or stepping never crashes, at any point of the game.",
 ["histories", "schedules"], "all event histories and delays, games that end with the first click, resets, queries at every phase",
 "The tests do not look at the clock of a live game and read only final values of parsed files.", [VB, MB],
 [("clock", VB + " step, get_time, get_time_ms, start_time bookkeeping"), ("path and counters", VB + " step, get_path, get_cl, get_ce"), ("result", VB + " rtime, get_rtime")],
 "runtime monitoring of live games against a reference clock and path model with injected delays", N + "Wall-clock readings are compared with a tolerance of 100 ms.")

prop("C17", "A recorded game survives saving as EVF, loading and analysing",
 "A live game written as EVF data, parsed and analysed again has the same board, events, times, player data, result, metrics and per-event counters as the live game had, and its playback shows the positions the player saw. Writing the parsed recording again gives the same data, except for the checksum, which only the recording program can make.",
 ["inputs", "histories"], "all boards, all event histories (pre-flags, drags, outside events, games lost or won by the first click), pixel sizes, player texts and flags",
 "No test writes a game and reads it back with all its fields.", [VB, EV, MB],
 [("writer", VB + " generate_evf_v0_raw_data"), ("reader", EV + " EvfVideo::parse_video"), ("replay", VB + " BaseVideo::analyse")],
 "runtime monitoring of record, save, load and analyse round trips against the live game and a reference rule model", N + "Games shorter than 16777 s, texts without NUL bytes.")

prop("C18", "EVF data follow the published layout byte for byte",
 "Written EVF data hold each field of the published layout at its place and in its encoding: sizes, mine count, flags, mode, 3BV, result time, texts, packed mine bits, events, end mark and checksum. A file made by any other program that follows the layout is read with exactly those values, whatever the sizes, flags, texts and event kinds.",
 ["inputs", "histories"], "all field values the layout can store, and all orders of setting data, generating, resetting and setting a checksum",
 "The tests read one or two files and print them; a wrong byte order or flag bit needs particular values.", [VB, EV],
 [("writer", VB + " generate_evf_v0_raw_data, set_checksum"), ("reader", EV + " EvfVideo::parse_video")],
 "runtime monitoring of the encoder and decoder against an independent encoder and decoder", N)

prop("C19", "Saving never overwrites a file and stores the whole recording",
 "Saving a recording writes all its data into a new file with the wanted name, or with the first free number in brackets when that name is taken. Files already there keep their content and nothing else appears in the folder, also when several recordings are saved at the same time under the same name.",
 ["inputs", "schedules"], "all names (dots, spaces, brackets, several scripts), folders with any of the candidate names taken, concurrent savers",
 "The tests save one file and do not look at it.", [VB], [("saving", VB + " save_to_evf_file")],
 "runtime monitoring of the folder contents before and after sequential and concurrent saves (exactly-once and conservation checks)", N + "Scratch folders in memory only.")

prop("C20", "AVF, RMV and MVF recordings are read as written and replayed by the rules",
 "A recording made by another program in the AVF, RMV or MVF layout is read with the board, events, times, positions, level, result time and texts it holds. Analysing it gives the counters, states and result that the rules prescribe for its events, and converting it to EVF and reading that keeps them.",
 ["inputs", "histories"], "all boards and event histories the layouts can store, standard and custom levels, all text lengths and optional sections",
 "The tests read one to three sample files per layout and print the result.", [AV, RV, MV, VB],
 [("AVF reader", AV + " AvfVideo::parse_video"), ("RMV reader", RV + " RmvVideo::parse_video"), ("MVF reader", MV + " MvfVideo::parse_video"), ("replay", VB + " BaseVideo::analyse")],
 "runtime monitoring of the readers against independent encoders, and of the replay against a reference rule model", N + "AVF shift clicks and MVF version 0.97 time tables beyond those generated are not driven.")

prop("C21", "A damaged or hostile recording is refused or read, never a crash",
 "Reading a truncated, damaged or arbitrary file with any of the four readers ends quickly with success or one of the documented reasons, and never crashes, hangs or takes memory out of proportion to the file. An accepted recording has a board of its stated size with numbers that match its mines, and a cut file is accepted only when nothing of the recording is lost.",
 ["inputs"], "all byte strings: every prefix, every single damage, splices of valid files and noise",
 "The tests read only intact files.", [EV, AV, RV, MV, VB], [("byte readers", VB + " get_u8 to get_char"), ("readers", "base/src/videos parse_video of each file")],
 "runtime monitoring under fault injection into the input bytes, with crash, overflow, time and allocation detection", N)

prop("C22", "Playback shows the state of the recording at any time, however reached",
 "At any playback time the current event is the last one not later than that time, and board, counters, solved 3BV, mouse state, mouse position, path and mine probabilities are those after that event. The result depends only on the time or event last set and not on earlier seeks, times outside the recording count as its ends, and an event that is not in the recording is refused.",
 ["inputs", "histories"], "all recordings and all sequences of forward and backward seeks by time and by event, zooms included",
 "The tests seek once or twice in one file.", [VB], [("seeking", VB + " set_current_time, set_current_event_id"), ("views", VB + " get_game_board, get_game_board_poss, get_x_y, get_path, counters")],
 "runtime monitoring of seek histories against the states of a reference replay", N, state=[("current_event_id", "event shown", VB), ("current_time", "time shown", VB)])

prop("C23", "Derived metrics follow from the counters and the clock",
 "After a game and at every playback moment, the metrics correctness, throughput, IOE, estimated time, RQP, QG, 3BV/s, ce/s, STNB and the click rates equal their formulas over the counters and the time: the result time of a finished game, the moment shown in playback. They are 0 where a count in the denominator is 0 and, in playback, before the first millisecond of the game.",
 ["inputs", "histories"], "all games and recordings, all moments, standard and other board sizes",
 "The tests print a few metrics of fixed files.", [VB], [("metrics", VB + " get_etime, get_rqp, get_qg, get_bbbv_s, get_ce_s, get_stnb, get_corr, get_thrp, get_ioe"), ("rates", VB + " get_left_s, get_right_s, get_double_s, get_cl_s, get_flag_s")],
 "runtime monitoring of the metrics of played games and of recordings against independent formulas over the reference counters", N, state=[("current_time", "time shown", VB)])

prop("C24", "What may be changed or asked depends on the stage of the game",
 "Player data, flags, mode and checksum can be set only after the game has ended (the program name and the cell size also before it starts), the board only until the game ends and only by one of the same size, and the stated result of a file only once. Results, raw data and metrics are answered only after the end or in playback, playback positions only in playback. A refused call changes nothing and an accepted one changes exactly its own value.",
 ["inputs", "histories"], "all sequences of events and calls, in every stage of the game",
 "The tests call setters at one point of one game.", [VB], [("setters", VB + " set_is_offical .. set_checksum, set_pix_size, set_board, set_rtime"), ("gated queries", VB + " get_raw_data, get_rtime, get_x_y, get_video_start_time and others")],
 "runtime monitoring of random call histories in every stage against a model of the fields", N, state=[("game_board_state", "stage of the game", VB)])

prop("C26", "Review comments state facts about the recording",
 "A dangerous guess, a hard deduction or a needless guess is reported at an event exactly when the position before it makes it one: mine probability of at least 0.51, decided only by enumeration, not proven while some cell was proven safe. Detours of the mouse and abandoned safe cells are reported at the previous click exactly when they happened, a textbook spot only for at least five flags and best chords in a row close together, and the luck line is the product of the survival chances of the guesses. Reviews never crash and do not depend on which others run or in which order.",
 ["inputs", "histories"], "all analysed recordings and all sets and orders of reviews",
 "The tests print the comments of a few files.", [AM, VB], [("reviews", AM + " analyse_high_risk_guess, analyse_jump_judge, analyse_needless_guess, analyse_mouse_trace, analyse_vision_transfer, analyse_survive_poss, analyse_super_fl_local"), ("choice and order", VB + " analyse_for_features")],
 "runtime monitoring of reviews of generated recordings against exact solution counting on every position", N, state=[("comments", "findings so far", VB)])

prop("C27", "The ranking review accepts exactly the recordings its rules allow",
 "A recording is judged invalid when its program is not a listed one, when Viennasweeper recorded it after the ban, when a Metasweeper recording is not fair or has a constant checksum, and when the game was not won. It is judged uncertain when it has fewer than ten events per 3BV or its time stamp cannot be read, and valid otherwise; the judgement never crashes.",
 ["inputs"], "all analysed recordings: every program name, time stamp, checksum, event count and ending",
 "The tests judge one file.", [VB], [("judgement", VB + " is_valid")],
 "runtime monitoring of the judgement over generated recordings against the published rules", N)

PY, WA, CI = "python_package/src", "wasm/src", "c/src/lib.rs"
prop("C30", "Python's functions, boards and games answer as the Rust library does",
 "Every function, board object, position object and game automaton of the Python module gives the answer the Rust library gives for the same arguments and the same history of calls. Layouts generated from Python obey the rules of the generators, and what the library refuses raises an exception and leaves the interpreter and the object usable.",
 ["inputs", "histories"], "all exported functions and classes, over all boards, positions (contradictory ones too), events and orders of calls",
 "The existing tests run only the Rust library; nothing tests the wrappers, which convert arguments, reorder results, cache state and name the library's fields one by one.",
 [PY + "/lib.rs", PY + "/board.rs", PY + "/gameboard.rs"], [("functions", PY + "/lib.rs"), ("boards and games", PY + "/board.rs"), ("positions", PY + "/gameboard.rs")],
 "differential runtime monitoring: the real Python module in a real interpreter answers the same generated call histories as the Rust library, answer by answer", N + "The library's own answers are the subject of C01 to C29.",
 observe=["return values and exceptions seen by a Python program"])

prop("C31", "Recordings and live games shown in Python are those of the Rust library",
 "A recording of any format read, analysed, reviewed, played back and saved from Python shows at every moment the same values, positions and bytes as in the Rust library. A game played and recorded from Python counts, refuses, describes and saves as the library does, and its recording carries exactly its events, at the times shown and with the rates that follow from them.",
 ["inputs", "histories"], "all recordings of the four formats (damaged ones too), all seek histories by time and by event, all live games with pauses, resets, late boards and descriptions",
 "The existing tests run only the Rust library; the wrappers repeat some ninety accessors in five files, and nothing compares them.",
 [PY + "/evf_video.rs", PY + "/avf_video.rs", PY + "/rmv_video.rs", PY + "/mvf_video.rs", PY + "/base_video.rs"], [("recordings", PY + "/evf_video.rs and the three beside it"), ("live games", PY + "/base_video.rs")],
 "differential runtime monitoring: the real Python module in a real interpreter against the Rust library over generated recordings and live games; the clock of live games against their own recording", N + "The library's own answers are the subject of C15 to C27.",
 observe=["return values and exceptions seen by a Python program", "files saved from Python"])

prop("C32", "The JavaScript interface answers as the Rust library does",
 "Every function, game and recording of the JavaScript interface gives the answer the Rust library gives for the same arguments and history, in the documented JSON form, and a position that cannot be is answered with an empty table. The library as the web build compiles it solves as in Rust, and its generators obey their rules with every allowed layout equally likely.",
 ["inputs", "histories"], "all exported functions and classes, over all boards, positions, events, recordings of the four formats and seek histories; the distribution of generated layouts",
 "The existing tests run only the Rust library with its default features; nothing tests the wrappers, the JSON conversion or the generator of random numbers of the web build.",
 [WA + "/lib.rs", WA + "/board.rs", WA + "/transfor.rs", "base/src/utils.rs"], [("functions", WA + "/lib.rs"), ("games and recordings", WA + "/board.rs"), ("JSON", WA + "/transfor.rs"), ("random numbers of the web build", "base/src/utils.rs get_random_int, js_shuffle")],
 "differential runtime monitoring: the interface's own source, compiled for this machine with the web build's features, against the Rust library; statistical oracle for its generators", N + "It runs as a native process, since no WebAssembly target is installed: 32-bit arithmetic and the JavaScript glue are not exercised.",
 observe=["return values of the exported functions and methods"])

prop("C33", "The C interface answers as the library does and handles memory soundly",
 "The C interface builds, and a C program that uses it through its header gets the layouts, 3BV and mine probabilities the Rust library gives. What it receives stays as it was until it is freed, in any order, reads and writes stay within the blocks, and every block is given back with the size and alignment it was obtained with, once and completely.",
 ["inputs", "histories"], "all boards, positions and sequences of calls and frees",
 "Nothing builds or tests the C interface.",
 [CI, "c/ms_toollib.h"], [("conversion", CI + " struct_board_to_vec_board, vec_board_to_struct_board, cal_possibility_onboard"), ("freeing", CI + " free_board, free_board_poss"), ("layout of the structs", "c/ms_toollib.h")],
 "sanitizers: a C program built with AddressSanitizer and UndefinedBehaviorSanitizer linked with the real library, and an allocator that checks the size and alignment of every block given back; answers monitored against the Rust library", N,
 observe=["values a C program reads", "sanitizer reports", "allocation and deallocation calls"])

prop("C34", "Clear screenshots are read as the board they show",
 "A clear picture of a board in the classic look, drawn at a common size inside a dark surround, is read as the board it shows, whatever its shape, position in the picture and numbers. The reading is the same each time, holds only covered cells and numbers no larger than their covered neighbours, and a picture too small to hold a board is refused.",
 ["inputs"], "all clear pictures of boards of nine rows and columns or more, of every position in the game, and pictures too small",
 "The tests read a few stored pictures and print the result.", ["base/src/OBR.rs", A, U], [("finding the cells", "base/src/OBR.rs get_pos_pixel"), ("reading a cell", A + " OBR_board"), ("repair", U + " legalize_board")],
 "runtime monitoring of readings of drawn pictures against the boards drawn, with a statistical oracle for the rate of misreadings",
 "The reader is a neural network and documented as fallible: of the drawn pictures about 998 in 1000 are read exactly, and the check allows 5 in 1000. Flags, photographs and other looks are not covered.")

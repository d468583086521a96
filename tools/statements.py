S = {}
S["C01"] = ("Events are handled in time order, each exactly once, at its own time",
"Every scheduled event is handled exactly once, in order of time and, among events of one time, in the order of scheduling, whether it was scheduled with a delay or for immediate execution (which queues it at the current time). "
"While a handler runs the simulated time is exactly the time of its event and never goes back, and the handler receives exactly the arguments it was scheduled with, given as any iterable. "
"Handlers and arguments need not be comparable with each other.")
S["C02"] = ("A cancelled event never runs and nothing else is affected",
"An event cancelled before its time never runs, whoever cancels it and whenever, and all other events still run at their times and in their order. "
"Cancelling returns how many events were cancelled: one for a pending event, zero for an event that has run, is running, was cancelled or never existed, in which case nothing changes. "
"Identifiers of events are greater than 0 and never reused, and the list of future events holds exactly the pending ones.")
S["C03"] = ("Impossible scheduling requests are rejected and leave no trace",
"A request to schedule an event in the past, without a handler, with something that cannot be called, or with arguments that cannot be iterated raises the documented error, at whatever simulated time and for delayed and immediate requests alike. "
"A rejected request leaves no event behind, and the accepted requests around it, zero delays included, run as if it had not been made.")
S["C04"] = ("A run stops at its limits and reports why",
"A run ends when no events remain, after the first event past the simulated time limit, when the number of handled events reaches its limit, after the handler (or the initializer) during which the real time limit was exceeded, or after the one that asked for a stop; no event before that is left out and none after it runs. "
"The reported reason is one that applies, and the reported final time, number of handled events, last handler, stop message and elapsed real time are those of the run.")
S["C05"] = ("Life cycle of a run: initializer, handlers, finalizer, context, isolation",
"The initializer runs first with its arguments, then the handlers, then once the finalizer, whose value becomes part of the single result; all of them see the same simulator and the current context, which may be any object, falsy ones included, may be replaced at any moment, and is by default a fresh empty dictionary. "
"Runs that are nested, prepared early or made one after the other do not affect each other. "
"An error raised by the initializer, a handler or the finalizer reaches the caller and nothing runs after it.")
S["C06"] = ("The event queue equals a priority queue with cancellation",
"After any history of pushing, popping, cancelling and clearing, the event queue has the length, emptiness and list of future events of a plain ordered list with the same history, and gives the events out in order of time and, for equal times, of insertion, with their own time, identifier and task. "
"Cancelling unknown, past or already cancelled identifiers changes nothing, identifiers are never reused, and popping an empty queue is a key error.")
S["C07"] = ("Every log record goes exactly where the configuration says",
"A record is written to the console exactly when its level is at least the console level, and to the file exactly when it is at least the file level, where a level not set falls back to the common one, and nowhere else; each line has the configured format with simulated time, run identifier, logger name and caller, in the configured colour of its level on a coloured console only. "
"The log file is new, and its name is the base name with separator and run identifier before the extension, unless the identifier is switched off. "
"A repeated set-up changes nothing unless it is forced, in which case it replaces the outputs, and loggers of different names do not mix.")
S["C08"] = ("Ping-pong results equal what the history of pings determines",
"The reported miss rate is the share of sent pings without a received pong, the average delay is the one-way channel delay, and the average interval is the pause before the next ping after a pong or a loss. "
"A run lasts exactly as long as its pings take (channel delay and interval each, and service and the way back for those answered), and it ends after the configured number of pings or at a time limit. "
"The share of lost pings agrees with the loss probability, exactly for 0 and 1, and the client's counters of sent, answered, missed and wrongly answered pings agree with the history.")
S["C09"] = ("A series run equals its separate runs, listed in the order of the values",
"The command lines of the ping-pong and RFID models run one simulation per distinct value of the varied option, pass every other option to all of them unchanged, and print and save the results next to the values they belong to in increasing order; without a varied option they report a single run, and several varied options are rejected. "
"A tag-reading series gives one result per row of times, in the order given, and inconsistent options are rejected. "
"An RFID series saves a plot and its results for any varied option.")
S["C10"] = ("Tag reading simulation follows the exchange it models",
"Without losses the simulated total time equals exactly the number of readings times the sum of the phase times of the scenario, in the third scenario with one last phase per chunk. "
"With losses every phase succeeds with its own probability and a failed phase is repeated (a failure in the first scenario starts the reading again from the first phase), each attempt taking the time of its phase, so that numbers of attempts and the mean time agree with their expectation.")
S["C11"] = ("Analytical reading time equals the exact expectation",
"For every scenario the analytical mean reading time equals the exact expected time of its chain of phases: with failures leading back to the first phase (first scenario), to the same phase (second), or to the same phase with the last phase repeated for each chunk (third). "
"Results come in milliseconds and in the order of the given cases.")
S["C12"] = ("Monte-Carlo reading time follows the transition matrix of its scenario",
"The cumulative transition matrix of each scenario has, for every phase, its success probability towards the next phase and the rest towards the first phase (first scenario) or the same phase (others), and an absorbing last state. "
"The Monte-Carlo mean time, in milliseconds and in the order of the given cases, is exact without losses; with losses its mean and the stays in each state agree with the expectation of the chain.")
S["C13"] = ("Exchange parameters follow from the link parameters and the split into chunks",
"Splitting words into chunks loses and repeats no word: all chunks but the last have the integer share and the last one takes the rest. "
"The derived durations of commands and replies and lengths of replies equal those of the air interface for the given Tari, divide ratio, encoding and preamble, the success probability of a reply of n bits is (1 - BER) to the power n, and the time of an exchange is its command, its reply and the pauses T1, T2 and delimiters around them. "
"A random identifier of n bytes has 2n hexadecimal digits, and its bytes take every value.")
S["C14"] = ("Commands and replies have exactly the bits of the standard",
"Every reader command is encoded to exactly the bit string EPC Class 1 Generation 2 prescribes for its fields, with extensible bit vectors of any length for word pointers, and its length is the length of that string, so that commands of different fields never share their bits; the string follows the present values of the fields, and a field not given is the system-wide default. "
"Replies have the bit length of their type and contents and give back, with any separator, the bytes they were made of. "
"Byte data that is not a valid even number of hexadecimal digits or a sequence of bytes is rejected, and so is a value of M or UpDn that has no code.")
S["C15"] = ("Durations of commands and replies equal those of the modulated frames",
"The duration of a command is that of its delimiter, Tari and RTcal, of TRcal for Query only, and of its zero and one bits with their own lengths; the duration of a reply is that of its preamble (normal or extended, by encoding), its bits and the end bit at the symbol rate of the link. "
"Frame objects, helper functions and the table of elementary timings give the same values, and parameters not given take the system-wide defaults of that moment.")
S["C16"] = ("Link timings T1 to T7 and slot durations equal the standard",
"The minimal and maximal link timings T1 to T7, singly, as a list and as pairs, equal the formulas of the standard with its table of frequency tolerance for the divide ratio and temperature range, and numbers of timings out of range are rejected; parameters not given take the system-wide defaults. "
"The duration of an empty, collided, inventory or access slot is the sum of its commands, replies and pauses, including every access operation, and lies between the minimal and the maximal duration of such a slot.")
S["C17"] = ("A tag follows the inventory state machine of the standard",
"After any sequence of commands, power losses and power returns a tag is in the state, has the Q and the inventory flags and gives the reply (with the link settings of its last Query) that the rules of the standard determine: Query selects by session flag and SL, QueryRep and QueryAdjust act only in the tag's session, Ack is answered in the reply state and Req_RN after it only with the number the tag sent, an access finished in its session inverts the flag, and an unpowered tag does nothing. "
"A tag replies at once when it draws slot zero, and slots and numbers are drawn uniformly from their whole range.")
S["C18"] = ("Session flags persist without power as long as configured",
"The flag of session S0 returns to A with every loss of power; the flags of S1, S2 and S3 survive a loss of power shorter than their own configured persistence and return to A after a longer one. "
"A tag wakes up when the power exceeds its sensitivity and goes off when the power falls below it or disappears; while it is powered its flags change only by inventory.")
S["C19"] = ("Reading tag memory returns exactly the requested words",
"A secured tag answers a Read carrying its handle with exactly the requested words of the requested bank that exist, starting at the requested word, and with its handle; the length of the reply is that of this data. "
"It does not answer before it is secured, to a wrong handle, or for a bank it does not have, and reading changes neither the memory nor the state.")
S["C20"] = ("The reader walks through its rounds and slots as configured",
"Whatever is received or times out, a reader sends Query at the start of a round of two to the power Q slots and QueryRep for each following slot, acknowledges a received number, then requests a handle and reads the configured words if configured, and otherwise goes to the next slot; timeouts equal the command plus the maximal T1 (when off: the configured pause, if any). "
"With target switching the target alternates from A every configured number of rounds since the power was turned on; turning off ends slot and round and all power, and antennas take turns. "
"Starts and ends of slots and rounds, state changes and power switches are announced once each, in order, to every listener.")
S["C21"] = ("Adaptive Q follows the collisions and empty slots, on both sides",
"With adjustment on, after a slot opened by Query or QueryRep the floating Q rises by the step on a collision and falls by it when nothing was received, unless Q is at the end of its range 0..15, and QueryAdjust with that direction is sent exactly when the rounded floating Q differs from Q, which then changes by one; Query carries the current Q. "
"With adjustment off Q never changes and no QueryAdjust is sent. "
"Every tag taking part in the round has the Q of the reader, and the statistics count the adjustments each tag received.")
S["C22"] = ("The channel follows the two-ray model",
"The complex path gain between two antennas equals the sum of the direct ray and the ray mirrored at the wall, each with its length, Doppler phase, both antenna patterns and, for the mirrored one, the Fresnel coefficient of the wall for the given polarization; in decibels it is -infinity below the floor. "
"It does not change when the link is reversed at rest, moved along the wall or mirrored, is never above the sum of the rays, and is free space where nothing is reflected. "
"Radiation patterns, signal-to-noise ratios and bit error rates follow their formulas, error rates being between 0 and 1/2 and never growing with the signal.")
S["C23"] = ("Received power, SNR and error probability follow the link budget",
"The power at the tag and back at the reader is the transmitted power plus gains, cable losses, polarization loss, modulation loss and the two-ray path gain of the momentary geometry; the signal-to-noise ratio of a symbol follows from it, the noise, the encoding and the preamble, and the bit error rate from that ratio and the configured distribution. "
"Every power record of a run holds the time, position, antenna, field lifetime, path gains, powers, ratio and error rate of its moment, and the floor values when reader or tag are off.")
S["C24"] = ("Run statistics equal what was said on the air",
"Tags enter at the generated intervals, move along their path at their speed and leave at its end, and the run ends when the configured number of tags has left. "
"The record of each tag lists every reception of its identifier while it was there, with round, antenna, position and whether its data were read after it, and the number of rounds it took part in. "
"The shares of identified and of read tags and the average rounds per tag are those of these records.")
S["C25"] = ("Every command, reply and power switch happens when the air interface prescribes",
"A reply starts the minimal T1 after the end of its command, the transaction ends the maximal T2 after the longest reply (not before T4), when a received reply is delivered and the next command is sent; a command without reply is followed by the next one after the maximal T1. "
"The reader is turned on and off by its configured cycle, sends its first command when turned on and nothing while off, and turning off cuts the transaction under way. "
"Powers are recorded when the reader is switched, at every update interval, when a tag appears and when replies start.")
S["C26"] = ("Generated tags are distinct and well formed",
"Every tag of a generator gets its own number, identifier and TID of the configured length and prefix, which repeat only after all values have been used, and its own copies of the configured position, direction, antenna and electrical values. "
"An identifier received in a run belongs to the tag that sent it.")
S["C27"] = ("Every configured parameter takes effect, and only there",
"Each setting and each overriding argument of an RFID run reaches the reader, channel, generator and tags of the model unchanged and shows in the first command, an argument wins over a setting, and a parameter not given keeps its default. "
"The settings not given describe a valid link of the standard with which passing tags are read. "
"Configuring changes neither the settings given nor other models, and models share no parts. "
"Exactly when detailed output is asked for, the configuration of the model is printed, one row per setting with its value.")
S["C28"] = ("The command line finds, describes and runs exactly the well-formed models",
"The list of models holds exactly the packages that offer a runnable command, whatever lies next to them, and a broken or malformed package harms neither the list nor the other models. "
"Help and run of a model pass its own options through and give its own output; an unknown model is an error.")
S["C29"] = ("A reply is received exactly when it is alone and free of errors",
"A reply that is alone on the air is received, unchanged and with its signal-to-noise ratio and error rate, with the probability that none of its bits is wrong; several replies at once, or none, are never received. "
"The reader acknowledges a received number with that number, then asks for a handle and reads with the numbers received, and never acts on a reply it did not receive.")
S["C30"] = ("Runs are reproducible, isolated, and unaffected by being observed",
"With the same settings and random seeds a run of any model gives exactly the same events and results, after any other runs and in any process, and other seeds give other draws. "
"Logging, statistics and observers change nothing of what happens, and a run cut by a limit is a prefix of the uncut one.")
S["C31"] = ("A reader with several antennas uses each in turn, and only it",
"The antennas of a reader take turns in the order they were attached, each for the configured interval while the reader is on; after a power cycle the reader continues with the current antenna, or with the first one if so configured. "
"At any moment the powers are those of the position, direction and gain of the antenna in use, and readings are recorded with that antenna.")
S["C32"] = ("Analysis, Monte-Carlo and simulation agree on every reading experiment",
"For any link parameters, number of words and chunks, scenario and bit error rates, the mean reading times computed by the analytical model, the Monte-Carlo model and the event simulation from the derived exchange durations and success probabilities all equal the expected time of the exchanges of the air interface: exactly without bit errors, and within statistical error with them. "
"Each model returns one time per bit error rate, in milliseconds and in the order given.")
S["C33"] = ("Processed results and figures show the values of the runs they belong to",
"The processing of a tag-reading run prints its total time and its mean time per reading; of a series, the mean time of every row in order, saved with all parameters and plotted exactly when asked. "
"The processing of RFID results prints the results and the time of a single run, the mean time of a series, saves all parameters and results exactly when asked, and plots the probability of reading against the increasing values of the varied option, named on its axis, with the encoding and Tari of the series. "
"Figures are saved under the given name once per extension in the given directory, or not at all without a name, and numbers on reformatted axes keep their values without special spaces. "
"Results and plots are saved whether or not the folders for them exist.")
S["C34"] = ("Entry points obey the limits, log settings and defaults they are given",
"Running any of the three models by its entry point, with any combination of limits of simulated time, real time and number of events and any log configuration, gives exactly what the kernel gives for the same model, limits, log configuration and seeds, and without limits the model runs to its end. "
"A command line without some of its options gives the same output as the one with the default values that its help and documentation state.")
S["C35"] = ("Tags enter, move and leave as configured, and the last one ends the run",
"In a model with any number of generators each one makes its own tags at the intervals it draws, from the first interval on, until its limit; every tag moves from the generator's position in its direction at its speed, its position never being older than the update interval, and leaves exactly when its path is travelled. "
"At any moment the model holds exactly the tags that have entered and not left; the counters of created, generated and left tags agree with that, and the run stops when the configured number of tags, if any, have left and not before.")
S["C36"] = ("The log of a run tells what happened in it",
"The log of any model at full level tells every occurrence exactly once, at its moment, in order and with the right values, and nothing else: pings, losses and pongs with their numbers; phases, attempts and failures of readings; state changes and power of reader and tags, rounds, slots, chosen slots, exchanges with commands, replies and duration, collisions, changes of Q, antennas, received identifiers and data with power and tag, and tags entering and leaving. "
"The texts of commands, replies, frames, tags and of the statistics show their field values, so that two that differ in a field differ in text.")

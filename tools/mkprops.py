#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the properties here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=", ".join(files)) for m in mech.split(";")])))

PROC = "txstatsd/server/processor.py"; CONF = "txstatsd/server/configurableprocessor.py"
prop("C01", "Ingest is total: bad lines are discarded, good ones touch one metric",
 "Handing any text line to the server's message processor, in StatsD-compliant, configurable or dump mode, never raises an error. A line is a sample when, stripped of surrounding whitespace, it reads name:value|type or name:value|type|extra, where the type is c, ms, g, m or that of an installed plugin, the value is a finite number (plugins define their own values) and, for a counter in compliant mode, the extra begins with '@' and a positive sample rate; any other line is discarded and neither creates nor changes any reported metric apart from the server's own self-statistics. A sample creates or changes only the one metric that its type and normalised name identify.",
 ["inputs", "histories"], "every text line, in every state the processor can be in after any history of earlier lines and flushes",
 "Tests feed about a dozen hand-written malformed lines to a fresh processor; the guarantee is over every line and every earlier history.",
 [PROC, CONF, "txstatsd/server/loggingprocessor.py", "txstatsd/metrics/slimetric.py"],
 "BaseMessageProcessor.process splits and validates; process_*_metric convert values and call compose_*; fail() logs and discards")
prop("C02", "Reported names are normalised to a graphite-safe alphabet",
 "The name under which a received sample is recorded contains only ASCII letters, digits, '_', '-' and '.'. It is the sent name (before any routing rule rewrites it) with every run of whitespace replaced by one '_', every run of slashes by one '-' and every other character outside that alphabet dropped; a name already inside the alphabet is kept unchanged, so normalising twice gives the same as once.",
 ["inputs"], "every name, of any length, over any characters",
 "The tests use names that need no normalisation, or one sample; no test covers arbitrary text.",
 [PROC], "normalize_key: three regular-expression substitutions in order")
prop("C03", "Counters are conserved: nothing lost or counted twice across flushes",
 "In StatsD-compliant mode, for every counter and after any history, the sum of the counts reported by all flushes plus what is still pending equals the sum of value divided by sample rate over all samples accepted for it, also when samples arrive while a flush is part-way through. Every flush reports each counter that existed when the flush began exactly once, as its count and as a rate equal to that count divided by the flush interval in seconds; after that only samples accepted since then are pending.",
 ["histories", "schedules", "inputs"], "every sequence of samples and flushes, every placement of samples between the steps of a running flush, every flush interval, also one that is no whole number of seconds",
 "Tests flush once, with one or two counters and no samples arriving during the flush.",
 [PROC], "compose_counter_metric accumulates; flush_counter_metrics resets and reports, yielding between counters")
prop("C04", "Compliant timers: exact count, bounds and trimmed mean, no sample lost",
 "In StatsD-compliant mode a flush reports, for every timer with samples since it was last reported and for no other, count, lower and upper: their exact number, smallest and largest value. upper_P and mean are the largest value and the arithmetic mean of what remains after the top (100-P)% of the samples (rounded to a whole number of samples, and leaving at least one) have been removed. No sample is lost or reported twice, also when samples arrive while a flush is part-way through.",
 ["histories", "schedules", "inputs"], "every sequence of timer samples and flushes, any sample values and order, percentages from 0 to 100, any interleaving with a running flush",
 "Tests flush one timer with one or four increasing samples.",
 [PROC], "compose_timer_metric appends; flush_timer_metrics takes the list, sorts, trims and averages")
prop("C05", "Gauges report the latest value",
 "After any history of messages, the last value that a flush reports for a gauge is the last value received for it. Every gauge that was ever received is reported in every later flush, a gauge that never received a value is not, and a sample for one gauge never changes what is reported for another. In configurable mode each gauge is reported exactly once per flush.",
 ["histories", "inputs"], "every sequence of messages and flushes in compliant and configurable mode",
 "Tests flush one gauge with one value.",
 [PROC, CONF, "txstatsd/metrics/gaugemetric.py"], "compose_gauge_metric; flush_gauge_metrics; GaugeMetricReporter mark/report")
prop("C06", "Meters: running total and rate are exact",
 "A report of a meter gives, as its count, the total of all values ever received for it and, as its rate, the total received since the previous report divided by the seconds elapsed (both rounded to 6 decimals). When no time has elapsed since the previous report nothing is reported and nothing is lost: the values count towards the next report.",
 ["histories", "inputs"], "every sequence of samples and reports with any timestamps that do not decrease",
 "Tests report one or two fixed sequences.",
 ["txstatsd/metrics/metermetric.py", PROC, CONF], "MeterMetricReporter mark/report: value, count, poll_time")
prop("C07", "Configurable timers: exact window statistics, then a fresh window",
 "In configurable mode a timer's report gives the minimum, maximum, arithmetic mean and sample standard deviation of exactly the non-negative durations received since its previous report (all zero when there are none), rounded to 6 decimals; count is the number of durations ever received. The rate is the number of non-negative durations in the window divided by the seconds since the window began, and never negative. After each report the window is empty and begins at the report's timestamp.",
 ["histories", "inputs"], "every sequence of durations and reports",
 "Tests use one series and check the statistics to a tolerance; running sums and variance must be right for every series.",
 ["txstatsd/metrics/timermetric.py", "txstatsd/metrics/histogrammetric.py", CONF], "HistogramMetricReporter.update keeps count, sum, min, max and Welford's M and S; TimerMetricReporter.report reads them and clears")
prop("C08", "Percentiles and histogram are faithful to the retained sample",
 "For every non-empty set of retained values, a percentile p between 0 and 1 is the linear interpolation at rank p*(n+1) of the sorted values, so it lies between the smallest and largest of them and does not decrease as p increases; with no values it is 0. The histogram never fails, has no negative bin, and its bins add up to the number of retained values, also when all values are equal.",
 ["inputs"], "every multiset of values of any size, every percentile between 0 and 1",
 "Tests check 1..10000 and fixed percentiles.",
 ["txstatsd/metrics/histogrammetric.py", "txstatsd/metrics/timermetric.py"], "HistogramMetricReporter.percentiles and histogram")
prop("C09", "Bounded samples hold only, and at most capacity, recorded values",
 "However many values are recorded, a bounded sample (uniform or exponentially decaying) holds exactly min(capacity, number recorded since it was last cleared) values, and each value it holds was recorded since then, no more often than it was recorded. Until the capacity is reached it holds every recorded value. Clearing empties it; the passing of time and rescaling never change which values the decaying sample holds.",
 ["histories", "inputs"], "every sequence of updates and clears, every outcome of the random number generator, every capacity of at least 1, every clock",
 "Tests check sizes for two sequence lengths.",
 ["txstatsd/stats/uniformsample.py", "txstatsd/stats/exponentiallydecayingsample.py"], "UniformSample.update (algorithm R), ExponentiallyDecayingSample.update/rescale")
prop("C10", "EWMA follows its defining recurrence and stays within its inputs",
 "The first tick sets the rate to the amount counted since creation divided by the interval; every later tick sets it to alpha times the amount counted since the previous tick divided by the interval, plus (1 - alpha) times the previous rate. Each counted amount enters exactly one tick, and for 0 <= alpha <= 1 the rate never leaves the range of the per-tick rates seen so far.",
 ["histories", "inputs"], "every sequence of updates and ticks, every alpha and interval",
 "Tests compare constant-zero decay against tabulated numbers for three alphas.",
 ["txstatsd/stats/ewma.py"], "Ewma.update/tick")
prop("C11", "Distinct counting ignores repeats and is monotone in items and window",
 "For a distinct counter, recording an item again never changes the all-time estimate, and recording any item never lowers any estimate evaluated at the same moment. Provided the clock reads at least one day past the epoch, the estimates for the last minute, hour, day and all time are in non-decreasing order and, with a clock that never goes back, the estimate for a window depends only on which items were last recorded inside it, not on order, repetition, or items last recorded outside it.",
 ["histories", "inputs"], "every sequence of (time, item) additions with a non-decreasing clock of at least one day, every choice of random hash tables",
 "Tests compare the estimate with a tolerance for one seed.",
 ["txstatsd/metrics/distinctmetric.py"], "SBoxHash.hash, zeros, SlidingDistinctCounter.add/distinct, DistinctMetricReporter.flush")
prop("C12", "Consistent hashing: stable ownership, minimal movement",
 "In a ring with at least one node every key is owned by one of the current nodes, always the same one for the same key and set of nodes, regardless of the order in which the nodes were added. Removing a node changes the owner of no key that the node did not own; adding a node moves keys only to the new node. Listing a key's nodes yields every current node exactly once, beginning with its owner.",
 ["histories", "inputs"], "every sequence of additions and removals of distinct, totally ordered nodes, every key, every replica count of at least 1",
 "Tests check where three clients' keys go for fixed names.",
 ["txstatsd/hashing.py", "txstatsd/client.py"], "ConsistentHashRing add_node/remove_node/get_node/get_nodes over a sorted list of (position, node)")
prop("C13", "Client calls emit exactly the right statsd line, sampled as asked",
 "Each call that reports a gauge, meter, counter change, timing, service level or generic sample sends at most one line, which reads <namespace.name>:<value>|<type>, with types g, m, c, ms (the duration in milliseconds), sli and the given one respectively, and |@<rate> appended if and only if the sample rate is below 1. With a sample rate of 1 or more the line is always sent; below 1 it is sent exactly when the random draw does not exceed the rate. The sample rate of a name is the one given when it was first used, and a name is used for one kind of metric. The namespace is joined with a dot, and is left out when empty or absent; a decrement is the negated value, and an extended client's counters send their running total.",
 ["inputs", "histories"], "every name, namespace, value, sample rate and random draw, for names used with one kind of metric",
 "Tests check a handful of names and values at sample rate 1.",
 ["txstatsd/metrics/metrics.py", "txstatsd/metrics/extendedmetrics.py", "txstatsd/metrics/metric.py", "txstatsd/metrics/gaugemetric.py", "txstatsd/metrics/metermetric.py", "txstatsd/metrics/countermetric.py", "txstatsd/metrics/timermetric.py", "txstatsd/metrics/distinctmetric.py"], "Metrics.* compose a payload; Metric.send samples and prefixes the name; fully_qualify_name")
prop("C14", "Client and server agree: what is sent is what is recorded",
 "For every name made of letters, digits, '_', '-' and '.', and every integer value, a gauge, meter, counter or service-level sample sent through the client library and handed to the server is recorded under that name, with that value and kind, and nothing else is recorded. A counter sent with a sample rate r below 1 and not sampled away adds value / r in compliant mode, r being the rate as written in the line (12 significant digits).",
 ["inputs"], "every name in the alphabet, every integer value, every positive sample rate",
 "Client tests stop at the text sent and server tests start from hand-written text; nothing tests that the two agree for all inputs.",
 ["txstatsd/metrics/metrics.py", "txstatsd/metrics/metric.py", "txstatsd/client.py", PROC], "composition of the client's emission contracts with the server's parsing contracts through InternalClient")
prop("C15", "The asynchronous client delivers in order, once, with a bounded queue",
 "Messages written before the host is resolved and a transport is connected are queued and, once both are there, handed to the transport in the order written, each exactly once with its callback and addressed to the resolved host and port; later messages follow them. At most the queue's limit is ever held and only messages written while it is full are dropped. Network errors while sending are reported to the callback as None and never raised.",
 ["histories", "schedules", "fault_sequences"], "every order and number of write, host-resolved, connect and disconnect events, and every outcome of sending",
 "Tests cover a few fixed orders with one or two messages.",
 ["txstatsd/protocol.py"], "DataQueue, TransportGateway, TwistedStatsDClient.write/connect/host_resolved/_flush_items")
prop("C16", "Routing applies the rules in order, as documented",
 "A message is passed through the rules in the order given; each rule acts exactly on the messages its condition accepts and leaves the others as they are. drop removes them; rewrite substitutes in the name; set_metric_type replaces the type (with dup both also keep the original, for rewrite only where the pattern matches at the start of the name); redirect_udp and redirect_tcp send a copy, with its current name, type and fields, and pass the message on; conditions any, not, metric_type and path_like mean what their documentation says. What remains after the last rule reaches the wrapped processor once each, in order, and a rule text with an unknown condition or target is rejected.",
 ["inputs", "configurations"], "every list of rules of any length and every message",
 "Tests apply single rules, or two, to single messages.",
 ["txstatsd/server/router.py"], "Router.build_rules, build_condition_*, build_target_*, process_message")
prop("C17", "Listeners answer pings and process everything else exactly once",
 "A datagram, or a line on a TCP connection, that equals the monitor message is answered with the monitor response on the same channel (for UDP to the sender's address) and is not processed. Any other is handed to the processor exactly once, unchanged, from the reactor and not from within the receiving call, and is not answered. Every TCP connection gets the same configuration.",
 ["inputs", "configurations"], "every datagram and line, every monitor message and response, including none configured",
 "Tests send one ping and one sample.",
 ["txstatsd/server/protocol.py"], "StatsDServerProtocol.datagramReceived, StatsDTCPServerProtocol.lineReceived, StatsDTCPServerFactory.buildProtocol")
prop("C18", "Flushed data reaches carbon completely and self-statistics are exact",
 "Every flush of the service forwards each data point that the processor produces to the carbon client exactly once, in order, as (metric, (timestamp, value)). All points of one flush carry one timestamp, the whole second at which it began. Its self-statistics are exact: flush.<kind>.count is the number of metrics of that kind that were flushed, numStats is their total, and receive.<type>.count is the number of messages of that type handled since the previous flush's report.",
 ["histories", "inputs"], "every set of metrics of all kinds and every history of messages",
 "Tests check numStats for at most a couple of metrics; nothing checks forwarding of whole flushes.",
 ["txstatsd/service.py", PROC, CONF], "StatsDService.flushProcessor; MessageProcessor.flush and flush_metrics_summary; process_message's by_type")
prop("C19", "Command-line options beat the config file, which beats defaults",
 "For every option the value in effect is the one given on the command line (in short or long form) if there is one, otherwise the one in the configuration file if there is one, otherwise the default. Values from the file are converted to the option's type exactly as on the command line, unknown names in the file are ignored, plugin sections are kept for the plugins, and each carbon-cache section adds its host, port and name to the list of destinations.",
 ["inputs", "configurations"], "every combination of command line and configuration file contents",
 "Tests check single options.",
 ["txstatsd/service.py"], "OptionsGlue.parseOptions/configure/_coerce_option, StatsDOptions.opt_carbon_cache_*")
prop("C20", "Service-level metrics count exactly, then start again",
 "Between two flushes a service-level metric's count is the number of samples, its error count the number that are errors, and the count of each condition the number of non-error samples that satisfy it: below, above (strictly, against value + slope * size, size 1 when not given) or strictly between two bounds. A flush reports count, error and one count per configured condition, and then all start at zero. Conditions configured for a pattern apply to exactly the metrics whose path matches it.",
 ["histories", "inputs", "configurations"], "every configuration of conditions and every sequence of samples and flushes",
 "Tests use fixed conditions and a few samples.",
 ["txstatsd/metrics/slimetric.py", "twisted/plugins/sli_plugin.py"], "SLIMetricReporter.process/update/flush/clear, the conditions, SLIMetricFactory.configure/build_metric")
prop("C21", "System statistics are parsed exactly; counters report differences",
 "Parsing the kernel's memory, load and network tables yields, for every recognised line and only for those, the number in the table scaled to bytes by its unit, and each device's received and sent bytes and packets from the columns so named, wherever those columns stand. A counter report is empty the first time and then gives for each key the difference from that key's previous value; keys that appear later are reported from the next time on and never stop the reporting.",
 ["inputs", "histories"], "every table of the kernel's format and every sequence of counter readings",
 "The test module of this code cannot even be imported here (psutil is missing); it holds one example table each.",
 ["txstatsd/process.py"], "parse_meminfo, parse_loadavg, parse_netdev, report_counters")
prop("C22", "Periodic reporting isolates failures and names metrics consistently",
 "Each time a scheduled function runs, every metric it returns is reported exactly once, with its value, under its own name or, when the service has an instance name, under <instance name>.<name>. An exception in the function or in reporting is logged and never stops this or any other scheduled function. Functions scheduled before the service starts run from its start at their interval, ones scheduled while it runs start at once, and all stop when it stops.",
 ["histories", "fault_sequences"], "every sequence of schedule, start and stop, every returned dictionary and every failure of a function",
 "Tests schedule one function that succeeds.",
 ["txstatsd/report.py"], "ReportingService.schedule/wrapped/startService/stopService")
prop("C23", "The HTTP interface reflects the server's true state",
 "The status page reports the durations of the last completed flush and of processing the messages before it, and the flush interval, all in milliseconds, and answers with status ERROR and code 500 exactly when the two durations add up to more than 70% of that interval, otherwise OK. The metric list names exactly the metrics the processor has seen, of every kind, in both modes. A metric's page shows the histogram, minimum and maximum of that timer, and unknown metrics, or ones without a page, get a 404.",
 ["inputs", "histories"], "every processor state and every requested name",
 "Tests serve canned values from a stub.",
 ["txstatsd/server/httpinfo.py", PROC, CONF], "Status.render_GET, ListMetrics, Metrics.getChild, TimerResource, get_metric_names")
prop("C24", "TCP redirects respect back-pressure and frame every line",
 "While the transport has asked for a pause, lines given to a TCP redirect are counted as dropped and nothing is written; once it resumes, lines are written again and the count starts at zero. Every line written while not paused goes out exactly once, in order, ended by exactly one CRLF whether it came with none, with a CR or with CRLF. Before a connection exists lines are discarded without error.",
 ["histories", "inputs"], "every sequence of pause, resume and write with any non-empty line",
 "One test sends one line; pause and resume are not tested.",
 ["txstatsd/server/router.py"], "TCPRedirectProtocol.write/pauseProducing/resumeProducing, TCPRedirectClientFactory")
prop("C25", "The blocking clients never disturb their caller",
 "Writing to the blocking UDP client never raises a network error: it sends the data, unchanged, in one datagram to the resolved address when connected, and does nothing before connecting or after disconnecting. The hashing client sends each line to exactly one of its clients, always the same for the same metric name, and connects and disconnects every client exactly once.",
 ["fault_sequences", "histories", "inputs"], "every sequence of connect, write and disconnect, every failure of the socket, every line",
 "Tests check addresses and that hashing picks fixed clients.",
 ["txstatsd/client.py"], "UdpStatsDClient connect/disconnect/write, ConsistentHashingClient, InternalClient")
prop("C26", "Dump mode logs everything and changes nothing",
 "In dump mode every well-formed line is logged once, as received, before it is handled, and every flushed data point is logged once, in the order in which the points are passed on. What is recorded and what is flushed are the same as in a configurable-mode processor without dump mode.",
 ["inputs", "histories"], "every sequence of messages and flushes",
 "Tests log one metric of each kind.",
 ["txstatsd/server/loggingprocessor.py"], "LoggingMessageProcessor.process_message/flush delegate to the configurable processor")
prop("C27", "The reactor inspector reports every stall with its length",
 "On every check the inspector reports one delay: the round-trip time of an answered probe, or, when the reactor has not answered, a time no shorter than since the oldest unanswered probe was sent, together with a critical log entry. Every check sends exactly one new probe, and after the inspector is stopped no further probe is sent.",
 ["schedules", "histories"], "every timing of the reactor's answers relative to the inspector's thread",
 "Tests run the thread with three fixed timings.",
 ["txstatsd/report.py"], "ReactorInspector.run and its queue")
prop("C28", "The configured service is wired as its options say",
 "A server built from any options listens on the configured UDP port, and on TCP and HTTP only if configured, routes every received message through the routing rules into a processor of the configured mode and prefix, and sends every flush through one carbon client that connects to each configured destination (host, port and name, with the default for what is not given).",
 ["configurations"], "every combination of options",
 "Tests build a few configurations and look at single attributes.",
 ["txstatsd/service.py", "twisted/plugins/txstatsd_plugin.py"], "createService")
prop("C29", "Flushes run at the configured interval while the service runs",
 "From the start of the service until it is stopped, and only then, it begins a flush every flush-interval milliseconds, whatever positive number that is (also less than a second, or no whole number of seconds), the first one an interval after the start. Each flush is given that same interval for its rates. A flush that fails or takes long never keeps later ones from beginning. Stopping a service that is not running does nothing, and the carbon client's own statistics are reported equally often.",
 ["configurations", "histories", "fault_sequences"], "every flush interval and every sequence of starts, stops and failing flushes",
 "Tests flush once with an interval of whole seconds.",
 ["txstatsd/service.py"], "StatsDService.__init__/startService/stopService/flushProcessor, createService")
prop("C30", "A TCP redirect keeps one connection while it runs and none afterwards",
 "Starting a TCP redirect makes one attempt to connect to its host and port; when an attempt fails or the connection is lost it tries again, without limit (after a connection was made with the shortest delay again, and not paused), and lines go to the latest connection only. From its stop on, whatever the state of the connection then (never started, attempting, connected, waiting to try again), nothing is open, attempted or tried again. The connect callback runs once, after the first connection.",
 ["histories", "fault_sequences"], "every sequence of connections made, lost and refused, and a stop at any point of it",
 "One test connects once and stops.",
 ["txstatsd/server/router.py"], "TCPRedirectService.startService/stopService, TCPRedirectClientFactory.buildProtocol/write")
prop("C31", "The server's reports about itself hold the true figures",
 "The reports on the process, the processors, the thread pool and the reactor have one entry for each figure that the platform offers, under the prefix given, with the value it has when the report is made; figures the platform does not offer are left out. Open connections are counted for each status, TCP sockets only. The report on the carbon client has each destination's statistic since the previous report, with '_' for ':' in the name, after which all its statistics start again at zero. The reports scheduled are exactly those that the report option names, each once a minute.",
 ["inputs", "histories", "configurations"], "all figures, all lists of connections, all sequences of reports and all report options",
 "The test module of the process reports cannot be imported here (psutil is missing); the carbon report and the choice of reports are tested with one example.",
 ["txstatsd/process.py", "txstatsd/service.py"], "ProcessReport, report_system_stats, report_threadpool_stats, report_reactor_stats, report_client_manager_stats, createService")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

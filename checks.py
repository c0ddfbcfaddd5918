"""The table of checks: which monitor decides which property, with how many cases (quick, thorough)."""


def c(mon, quick, thorough, rule, **kw):
    d = {'mon': mon, 'cases': (quick, thorough), 'rule': rule, 'targets': [mon] if not mon.endswith('.py') else []}
    d.update(kw)
    return d


HIST = 'one evaluation = one random history of public filter operations (seed, case index); '
CHECKS = {
    'C01': c('mon_c01', 800, 40000, HIST + 'distinct by the sequence of operations and times, non-trivial if it mixes '
             'several kinds of operation and changes the state size'),
    'C02': c('mon_c02', 1600, 60000, HIST + 'distinct by operation sequence, non-trivial if predictions after gravity '
             'initialisation were compared'),
    'C03': c('mon_c03', 1600, 60000, HIST + 'distinct by operation sequence, non-trivial if it contains past-time predictions'),
    'C04': c('mon_c04', 5000, 100000, HIST + 'distinct by operation sequence, non-trivial if a Kalman update was compared'),
    'C05': c('mon_c05', 1600, 40000, 'one evaluation = one history run in both covariance forms; distinct by operation '
             'sequence, non-trivial if it has at least four kinds of operation'),
    'C06': c('mon_c06', 1600, 60000, HIST + 'distinct by operation sequence, non-trivial if sensors were registered'),
    'C07': c('mon_c07', 600, 20000, HIST + 'distinct by operation sequence, non-trivial if clones were created and looked up'),
    'C08': c('mon_c08', 20000, 400000, 'one evaluation = one random state with sensors and clones taken through every vector conversion; '
             'distinct by content, non-trivial if it has at least one sensor or clone'),
    'C09': c('mon_c09', 6000, 100000, 'one evaluation = 40 random inputs to every conversion helper; distinct by content'),
    'C10': c('mon_c10', 6000, 100000, 'one evaluation = a batch of random coordinates taken through the geodetic conversions; distinct by content'),
    'C11': c('mon_c11', 4000, 100000, 'one evaluation = one random set of matrices and samples; distinct by content'),
    'C12': c('mon_c12', 16000, 400000, 'one evaluation = one random trajectory with GPS fixes; distinct by content, non-trivial if an alignment was estimated'),
    'C13': c('mon_c13', 1600, 40000, HIST + 'followed by GPS fixes compared one by one; distinct by content'),
    'C14': c('mon_c14', 1600, 40000, HIST + 'followed by IMU measurements compared one by one; distinct by content'),
    'C15': c('mon_c15', 1600, 40000, HIST + 'followed by board detections compared one by one; distinct by content'),
    'C16': c('mon_c16', 1200, 40000, HIST + 'followed by feature-track updates compared one by one; distinct by content'),
    'C17': c('mon_c17', 5000, 60000, 'one evaluation = one random configuration of each truth engine, queried at random times; distinct by content'),
    'C18': c('mon_c18', 600, 15000, 'one evaluation = one IMU, one GPS and one camera with trackers simulated on a random trajectory; distinct by content'),
    'C19': c('mon_c19', 300, 8000, 'one evaluation = one data logger driven at random times, or one random history or truth trajectory with '
             'every log file followed row by row; distinct by content'),
    'C20': c('mon_c20', 1500, 40000, 'one evaluation = a set of debug loggers driven with random levels and messages, or one random history run under '
             'every log level; distinct by content, non-trivial if some messages were due and some not'),
    'C21': c('mon_c21', 400, 8000, 'one evaluation = cameras with trackers given a synthetic image sequence, or sensors, or simulated cameras, '
             'with every delivery observed; distinct by content, non-trivial if features were matched, boards detected or messages delivered'),
    'C22': c('c22.py', 240, 6000, 'one evaluation = one simulator run of a random configuration (valid: twice, with different fills of fresh memory; '
             'hostile: after random damage), or 100 in-process cases with hostile measurements, pictures and trajectories; distinct by content',
             targets=['sim', 'mon_c22'], case_cpu=900),
    'C23': c('c23.py', 480, 6000, 'one evaluation = one random configuration run end to end: twice with irrelevant settings changed (logs compared byte '
             'by byte), or with exact sensors, or with noisy ones (every logged estimate compared with the truth); distinct by content',
             variant='plain', targets=['sim'], case_cpu=300,
             technique='runtime monitoring: offline checkers over the complete logs of simulator runs (equality of repeated runs, error against the logged '
             'truth, consistency with the logged covariance)'),
    'C24': c('mon_c24', 2000, 40000, 'one evaluation = one random set of node parameters with a random schedule of messages through a stand-in for the ROS '
             'client library, or random messages through the conversions, or log messages; distinct by content',
             technique='runtime monitor: the real ROS node, sensors and logger run on a recording stand-in for the ROS client library; deliveries, '
             'objects and published messages are compared with the messages sent and with a filter fed directly, under ASan+UBSan',
             note='Holds on every observed execution. ROS itself is not installed: rclcpp, cv_bridge and the message packages are stand-ins '
             '(harness/ros_stub) that deliver synchronously on one thread, so executors, QoS and transport are outside the claim.'),
    'C25': c('c25.py', 320, 6000, 'one evaluation = one or two random experiments run, evaluated and reported by the real tools with a simulator that '
             'records what it is given and writes random logs (7 of 8) or with the real simulator; distinct by content',
             variant='plain', targets=['sim'], case_cpu=900,
             technique='runtime monitoring: offline checkers over the recorded simulator starts, the statistics file and the recorded figures, compared '
             'with an independent evaluation of the same logs',
             note='Holds on every observed execution. pandas and bokeh are not installed: stand-ins (monitors/eval_stub) read the logs and record what '
             'is drawn, so their rendering is outside the claim; a tool that uses something the stand-ins lack gets no verdict for that case.'),
    'C26': c('mon_c26', 1500, 40000, 'one evaluation = one random configuration file given to the real main function with recording subclasses in '
             'place of the filter, sensors, truth engines and random source; distinct by content, non-trivial if messages were delivered',
             technique='runtime monitor: the simulator main function runs with recording subclasses, every constructed object and every delivery is '
             'compared with an independent reading of the configuration, under ASan+UBSan'),
}

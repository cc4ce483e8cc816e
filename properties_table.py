"""Which harness, build flags and library sources decide each property."""
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
FLAGS = {
    "plain": COMMON,
    "san": COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": COMMON + ["-fsanitize=thread"],
}
# Prefixes below src/ of the library; None is everything.
LIBS = {
    "geometry": ["geometry/"],
    "data": ["data_manager"],
    "attitude": ["propagate/attitude_estimate", "propagate/imu_state"],
    "imu": ["propagate/", "data_manager/"],
    "types": ["propagate/", "data_manager/", "utility/"],
    "all": None,
}
PROPS = {
    "C01": {"runs": [("loader", "san", "data")]},
    "C02": {"runs": [("loader", "san", "data")]},
    "C04": {"runs": [("window", "plain", "all")]},
    "C05": {"runs": [("window", "plain", "all")]},
    "C03": {"runs": [("loader", "san", "data")]},
    "C06": {"runs": [("attitude", "san", "attitude")]},
    "C08": {"runs": [("propagator", "plain", "imu")]},
    "C09": {"runs": [("propagator", "plain", "imu")]},
    "C10": {"runs": [("propagator", "plain", "imu")]},
    "C11": {"runs": [("update", "plain", "all")]},
    "C12": {"runs": [("update", "plain", "all")]},
    "C13": {"runs": [("update", "plain", "all")]},
    "C07": {"runs": [("attitude", "san", "attitude")]},
    "C14": {"runs": [("geometry", "san", "geometry")]},
    "C15": {"runs": [("geometry", "san", "geometry")]},
    "C16": {"runs": [("geometry", "san", "geometry")]},
    "C17": {"runs": [("geometry", "plain", "geometry")]},
    "C18": {"runs": [("backend", "plain", "all")]},
    "C19": {"runs": [("backend", "plain", "all")]},
    "C20": {"runs": [("backend", "plain", "all")]},
    "C21": {"runs": [("backend", "plain", "all")]},
    "C23": {"runs": [("backend", "plain", "all")]},
    "C24": {"runs": [("backend", "plain", "all")]},
    "C26": {"runs": [("backend", "plain", "all")]},
    "C29": {"runs": [("backend", "plain", "all"), ("update", "plain", "all")]},
    "C30": {"runs": [("backend", "plain", "all")]},
    "C22": {"runs": [("hostile", "san", "all")]},
    "C25": {"runs": [("config", "san", "all")]},
    "C27": {"runs": [("math", "san", "attitude")]},
    "C31": {"runs": [("types", "san", "types")]},
    "C32": {"runs": [("backend", "plain", "all")]},
    "C33": {"runs": [("backend", "plain", "all")]},
    "C34": {"runs": [("backend", "plain", "all")]},
    "C35": {"runs": [("backend", "plain", "all")]},
    "C36": {"runs": [("backend", "plain", "all")]},
    "C37": {"runs": [("backend", "plain", "all")]},
    "C38": {"runs": [("backend", "plain", "all")]},
    "C39": {"runs": [("backend", "plain", "all")]},
    "C40": {"runs": [("backend", "plain", "all")]},
    "C41": {"runs": [("backend", "plain", "all")]},
    "C42": {"runs": [("backend", "plain", "all")]},
    "C28": {"runs": [("threads", "tsan", "all")], "shards": 3},
}

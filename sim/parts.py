"""Which simulators decide which property, and what is real in them."""
NODE_REAL = ("All of /repo/src and /repo/include as built: ndt_2d::Mapper with its executor callbacks and its two background threads, Graph, "
             "OccupancyGrid, ScanMatcherNDT/NDT (in part of the runs), ParticleFilter, CeresSolver; Ceres, glog, Eigen, nanoflann and libstdc++.")
NODE_STUB = ("rclcpp, tf2, pluginlib, rosbag2 and the message types are simulated in process (sim/ros, sim/shim); threads, mutexes, condition variables, "
             "sleeps, clocks, random_device and rand are the simulator's; in part of the runs the scan matcher plugin is a scripted one (simx::ScriptMatcher); "
             "Ceres runs single-threaded between yields.")
COMP_REAL = "The component's real sources from /repo/src and /repo/include, with Ceres, Eigen, nanoflann and libstdc++."
COMP_STUB = "ROS headers are the simulator's; random_device, clocks and allocation are the simulator's; callers are generated histories."


def fast(g, w=1):
    return {"exe": "fast", "gen": g, "w": w}


def fine(g, w=1):
    return {"exe": "fine", "gen": g, "w": w}


def comp(g, w=1):
    return {"exe": "comp", "gen": g, "w": w}


PARTS = {
    "C01": [fine("C01", 2), fast("C01", 3)],
    "C02": [fine("C02")],
    "C03": [fast("C03", 2), fine("C03", 1)],
    "C04": [fast("C04", 2), fast("C04/conc", 2), fine("C04/conc", 1)],
    "C05": [fast("C05", 2), fast("C05/conc", 2)],
    "C06": [fast("C06", 2), fast("C06/conc", 1)],
    "C07": [fast("C07", 2), fast("C07/conc", 2)],
    "C08": [fast("C08", 3), fast("C08/conc", 1)],
    "C09": [fast("C09", 1), fast("C09/conc", 4), fine("C09/conc", 1)],
    "C10": [fast("C10")],
    "C11": [fast("C11")],
    "C12": [fast("C12", 2), fast("C12/conc", 1)],
    "C13": [comp("C13")],
    "C14": [comp("C14")],
    "C15": [fast("C15", 2), fast("C15/conc", 2)],
    "C16": [fast("C16", 2), fast("C16/conc", 2), fine("C16/conc", 1)],
    "C17": [comp("C17", 2), fast("C17", 1)],
    "C18": [comp("C18", 2), fast("C18", 1)],
    "C19": [comp("C19", 2), fast("C19", 1)],
    "C20": [comp("C20", 2), fast("C20", 1)],
    "C21": [fast("C21", 2), fast("C21/conc", 1)],
    "C22": [fast("C22", 2), fast("C22/conc", 1)],
    "C23": [fast("C23", 2), fine("C23", 2)],
    "C24": [comp("C24", 2), fast("C24", 1)],
    "C25": [fast("C25", 2), fast("C25/conc", 2), fine("C25/conc", 1)],
    "C26": [fast("C26", 1), fast("C26/conc", 2), fine("C26/conc", 1)],
    "C27": "tools",
    "C29": [fast("C29")],
}
ASSUME = ["The simulated ROS interfaces behave as rclcpp/tf2/rosbag2 do where the node depends on them.",
          "Seeded search: a clean run is evidence over the seeds explored, not a proof."]
META = {p: {"real": NODE_REAL, "stub": NODE_STUB, "assume": ASSUME} for p in ["C%02d" % i for i in range(1, 30)]}
for p in ["C17", "C18", "C19", "C20", "C24"]:
    META[p] = {"real": COMP_REAL + " In the node runs: " + NODE_REAL, "stub": COMP_STUB + " " + NODE_STUB, "assume": ASSUME}
for p in ["C13", "C14"]:
    META[p] = {"real": COMP_REAL, "stub": COMP_STUB, "assume": ASSUME}

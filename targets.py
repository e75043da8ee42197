AV = ["avoidance/src/common.cpp", "avoidance/src/histogram.cpp", "avoidance/src/transform_buffer.cpp"]
LP = ["local_planner/src/nodes/" + f for f in ("planner_functions.cpp", "star_planner.cpp", "tree_node.cpp", "local_planner.cpp")] + ["local_planner/src/utils/trajectory_simulator.cpp"]
WG = ["local_planner/src/nodes/waypoint_generator.cpp"]
GPL = ["global_planner/src/library/" + f for f in ("cell.cpp", "node.cpp", "global_planner.cpp")]
TARGETS = {
    "gp": dict(harness=["gp.cpp"], src=GPL, flags=["-fno-sanitize=shift"]),
    "gpnode": dict(harness=["gpnode.cpp"], src=GPL + AV + ["global_planner/src/nodes/global_planner_node.cpp", "avoidance/src/avoidance_node.cpp", "avoidance/src/rviz_world_loader.cpp"],
                   flags=["-fno-sanitize=shift"], libs=["-lyaml-cpp"]),
    "lpnode": dict(harness=["lpnode.cpp", "lpvis.cpp"], src=AV + LP + WG + ["avoidance/src/avoidance_node.cpp", "avoidance/src/rviz_world_loader.cpp",
                   "local_planner/src/nodes/local_planner_nodelet.cpp", "local_planner/src/nodes/local_planner_visualization.cpp"], libs=["-lyaml-cpp"]),
    "lpthr": dict(harness=["lpthr.cpp", "wrap_sync.cpp"], src=AV + LP + WG + ["avoidance/src/avoidance_node.cpp", "avoidance/src/rviz_world_loader.cpp",
                  "local_planner/src/nodes/local_planner_nodelet.cpp", "local_planner/src/nodes/local_planner_visualization.cpp"], san=False, flags=["-fsanitize=thread", "-fno-omit-frame-pointer"],
                  libs=["-lyaml-cpp"] + ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")]),
    "othr": dict(harness=["othr.cpp", "wrap_sync.cpp"], src=GPL + AV + ["global_planner/src/nodes/global_planner_node.cpp", "avoidance/src/avoidance_node.cpp", "avoidance/src/rviz_world_loader.cpp"] +
                 ["safe_landing_planner/src/nodes/" + f for f in ("safe_landing_planner.cpp", "safe_landing_planner_node.cpp", "safe_landing_planner_visualization.cpp")], san=False, flags=["-fsanitize=thread", "-fno-omit-frame-pointer"],
                 libs=["-lyaml-cpp"] + ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")]),
    "av": dict(harness=["av.cpp"], src=AV),
    "avnode": dict(harness=["avnode.cpp"], src=AV + ["avoidance/src/avoidance_node.cpp"], libs=["-ldl"]),
    "lpwp": dict(harness=["lpwp.cpp"], src=AV + ["local_planner/src/nodes/waypoint_generator.cpp", "local_planner/src/nodes/planner_functions.cpp"]),
    "slpwp": dict(harness=["slpwp.cpp"], src=AV + ["safe_landing_planner/src/nodes/waypoint_generator.cpp", ("safe_landing_planner/src/nodes/waypoint_generator_node.cpp", ["-Dmain=slp_main"])]),
    "slpnode": dict(harness=["slpnode.cpp"], src=AV + ["avoidance/src/rviz_world_loader.cpp"] + ["safe_landing_planner/src/nodes/" + f for f in ("safe_landing_planner.cpp", "safe_landing_planner_node.cpp", "safe_landing_planner_visualization.cpp")] +
                    [("safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp", ["-Dmain=slpn_main"]), "safe_landing_planner/src/nodes/waypoint_generator.cpp", ("safe_landing_planner/src/nodes/waypoint_generator_node.cpp", ["-Dmain=slp_main"])], libs=["-lyaml-cpp", "-ldl"]),
    "slp": dict(harness=["slp.cpp"], src=AV + ["safe_landing_planner/src/nodes/safe_landing_planner.cpp"]),
    "lp": dict(harness=["lp.cpp"], src=AV + LP),
}
PROPS = {p: "av" for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P09")}
PROPS.update({p: "avnode" for p in ("P07", "P08")})
PROPS.update({p: "lp" for p in ("P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17")})
PROPS.update({p: "lpwp" for p in ("P18",)})
PROPS.update({p: "lpnode" for p in ("P19", "P20", "P21")})
PROPS.update({p: "slp" for p in ("P22", "P23")})
PROPS.update({p: "slpwp" for p in ("P24",)})
PROPS.update({p: "slpnode" for p in ("P25", "P26", "P35")})
PROPS.update({p: "gp" for p in ("P27", "P28", "P29", "P30")})
PROPS.update({p: "gpnode" for p in ("P31", "P32", "P33", "P34")})
PROPS.update({"P36": "lpthr"})

PROPS.update({"P37": "othr"})

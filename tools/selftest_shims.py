"""Runs the upstream ROS unit tests of /repo (which the sandbox cannot build otherwise) on the stand-ins of shim/: a validation of the stand-ins, not a check."""
import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
import build, glob, subprocess
R='/repo'
av=[f'{R}/avoidance/src/{x}.cpp' for x in ('common','histogram','transform_buffer','avoidance_node','rviz_world_loader')]
lp=[f'{R}/local_planner/src/nodes/{x}.cpp' for x in ('local_planner','local_planner_nodelet','local_planner_visualization','planner_functions','star_planner','tree_node','waypoint_generator')]+[f'{R}/local_planner/src/utils/trajectory_simulator.cpp']
sl=[f'{R}/safe_landing_planner/src/nodes/{x}.cpp' for x in ('safe_landing_planner','waypoint_generator')]
import os
sets={'t_av':av+[f'{R}/avoidance/test/{x}.cpp' for x in ('test_common','test_transform_buffer','test_usm','main')],
 't_lp':av+lp+glob.glob(f'{R}/local_planner/test/*.cpp'),
 't_sl':av+sl+glob.glob(f'{R}/safe_landing_planner/test/*.cpp')}
for n,s in sets.items():
    e=build.build(n,s,libs=['-lgtest','-lgmock','-lyaml-cpp'])
    print(n,e)
    if e: subprocess.run(f"timeout 120 {e} 2>&1 | grep -v '^\\[ RUN\\|       OK\\|^\\[---' | tail -40",shell=True)

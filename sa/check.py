"""python3 sa/check.py PROPERTY [--tier quick|thorough]"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
from checks import eval_, geom, mesh, knots, step, io_, svg_, effects, newton, trim, poly, front

RUN = {
    'P27': front.p_bridges,
    'P29': front.p_front,
    'P21': poly.p_polygons,
    'P20': trim.p_trim,
    'P03': mesh.p_forward,
    'P04': mesh.p_grid,
    'P05': mesh.p_stl,
    'P06': mesh.p_obj,
    'P07': eval_.p_bezier,
    'P08': eval_.p_bspline,
    'P09': eval_.p_derivative,
    'P10': eval_.p_knots,
    'P11': knots.p_insert,
    'P12': geom.p_charts,
    'P13': geom.p_sense,
    'P15': geom.p_sampling,
    'P16': geom.p_nearest,
    'P17': geom.p_polyline,
    'P18': step.p_attributes,
    'P19': step.p_structure,
    'P02': io_.p_errors,
    'P23': svg_.p_svg,
    'P01': effects.p_effects,
    'P28': effects.p_safe,
    'P14': newton.p_newton,
    'P22': mesh.p_points,
    'P24': geom.p_swept,
    'P25': mesh.p_loop,
    'P26': mesh.p_normals,
}
ASSUME = [
    'real arithmetic (rounding is not modelled), usize and u32 arithmetic without wrap-around',
    'models of glam, grid, approx and the standard library',
    'an index that no fact decides is taken to lie inside its sequence; overflow and division by zero in integers are not examined',
]
TITLE = {}
for l in open(os.path.join(framework.VERIF, 'properties.jsonl')):
    p = json.loads(l)
    TITLE[p['id']] = p['statement']
framework.main({k: dict(run=f, level='other', rule=TITLE.get(k, ''), assumptions=ASSUME) for k, f in RUN.items()})

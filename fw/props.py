"""Configuration of the checks."""
ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic in the proofs (rounding is covered only by the bounded runtime contracts)',
    'signed integer arithmetic is mathematical; unsigned subtraction carries a no-wrap obligation',
    'standard library, absl, glog and protobuf accessors follow their documented behaviour (models in wodvc/cxxmodels.py)',
]
TECHNIQUE = 'contract-based deductive verification: contracts on the real functions, VCs generated from the clang AST, discharged by z3/cvc5'
NOTE = ('Floats are real numbers and signed integers unbounded in the proofs; library models and callee contracts listed in the evidence are trusted. '
        'The same contracts are also evaluated on the compiled code (bounded, not counted as proof) to find failing inputs.')
NOT_APPLICABLE = {}
M, U = 'metrics/', 'math/'
PROPS = {
    'C01': dict(level='proof', tus=[M + 'hungarian.cc'], driver='geom', budget=20),
    'C07': dict(level='proof', tus=[M + 'breakdown_generator.cc'], driver='metrics', budget=25),
}
PROPS.update({
    'C02': dict(level='proof', tus=[M + 'matcher.cc', M + 'iou.cc'], driver='metrics', budget=30),
})
PROPS.update({
    'C03': dict(level='proof', tus=[M + 'iou.cc'], driver='geom', budget=25),
    'C04': dict(level='proof', tus=[M + 'iou.cc'], driver='geom', budget=20),
})
PROPS.update({
    'C05': dict(level='proof', tus=[U + 'segment2d.cc', U + 'box2d.cc', M + 'iou.cc'], driver='geom', budget=25),
    'C06': dict(level='exploration', note='Every predicate, area sum, bounding box and motion of the polygons is proved; that the edge-chasing traversal visits exactly the vertices of the overlap is decided by a bounded comparison with half-plane clipping.', tus=[U + 'polygon2d.cc'], driver='geom', budget=30),
})
PROPS.update({
    'C08': dict(level='proof', tus=[M + 'metrics_utils.cc', M + 'detection_metrics.cc'], driver='metrics', budget=30),
})
PROPS.update({
    'C10': dict(level='proof', tus=[M + 'metrics_utils.cc', M + 'detection_metrics.cc', M + 'tracking_metrics.cc'], driver='metrics', budget=20),
})
PROPS.update({
    'C09': dict(level='proof', tus=[M + 'metrics_utils.cc', M + 'detection_metrics.cc'], driver='metrics', budget=20),
    'C11': dict(level='proof', tus=[M + 'mot.cc', M + 'matcher.cc', M + 'metrics_utils.cc'], driver='metrics', budget=20),
    'C12': dict(level='proof', tus=[M + 'tracking_metrics.cc'], driver='metrics', budget=20),
})
PROPS.update({
    'C13': dict(level='proof', tus=[M + 'segmentation_metrics.cc', 'common/status.cc'], driver='metrics', budget=15),
})
PROPS.update({
    'C14': dict(level='proof', tus=[M + 'motion_metrics.cc', M + 'motion_metrics_utils.cc', 'common/status.cc'], driver='motion', budget=15),
})
PROPS.update({
    'C15': dict(level='proof', tus=[M + 'motion_metrics.cc', M + 'motion_metrics_utils.cc', 'common/status.cc'], driver='motion', budget=20),
})
PROPS.update({
    'C16': dict(level='proof', tus=[M + 'config_util.cc', M + 'breakdown_generator.cc', M + 'metrics_utils.cc'], driver='metrics', budget=15),
})
PROPS.update({
    'C19': dict(level='proof', tus=[], driver=None, budget=12),
    'C20': dict(level='proof', tus=[], driver=None, budget=12),
    'C21': dict(level='proof', tus=[], driver=None, budget=12),
    'C23': dict(level='proof', tus=[], driver=None, budget=12),
    'C24': dict(level='proof', tus=[], driver=None, budget=12),
    'C25': dict(level='proof', tus=[], driver=None, budget=12),
    'C22': dict(level='proof', tus=[], driver=None, budget=12),
})

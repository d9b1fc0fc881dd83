import json
B="src/waymo_open_dataset/"
P=[]
def p(id,title,st,qt,why,files,mech,over=("inputs",),obs=(),state=()):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=qt),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],mechanism=[dict(name=a,where=B+b) for a,b in mech],hook_needed=None))
    if obs: d["anchors"]["observe_at"]=list(obs)
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=B+c) for a,b,c in state]
    P.append(d)
p("C01","Optimal assignment solver returns a maximum-weight permutation",
  "For every square matrix of non-negative integer edge weights, the assignment solver returns a one-to-one pairing of rows and columns whose total weight is the largest possible: every row is paired with exactly one column and every column with exactly one row, and no other permutation has a larger total. The labels it can also return are feasible (row label plus column label is at least the edge weight, with equality on the matched edges), and so certify the optimum.",
  "all square matrices of non-negative integer weights (sizes and values whose row maxima do not overflow the weight type), including ties and zero rows or columns",
  "The tests try a few small matrices; optimality is a universally quantified statement over all matrices and all competing permutations.",
  ["metrics/hungarian.cc","metrics/hungarian.h"],[("feasible labelling and slack update (Improve)","metrics/hungarian.cc"),("alternating-path augmentation (Augment)","metrics/hungarian.cc")],obs=["perm, lx and ly outputs of Hungarian()"])
p("C02","Prediction-to-ground-truth matching is one-to-one, consistent and gated",
  "Every matching of predictions to ground truths is one-to-one, the two directions of the reported matching agree, and a pair is matched only if its IoU reaches the configured threshold for the prediction's type, where objects of different types have an IoU of 0. The optimal matcher maximises the total matching weight; the score-first matcher visits predictions in descending score order and gives each the unmatched ground truth with the highest IoU that reaches the threshold. Restricting the matching to subsets of predictions and ground truths only ever pairs members of those subsets.",
  "all finite lists of predictions, ground truths, scores, thresholds and subsets",
  "Tests sample a handful of boxes with identity subsets; one-to-oneness, gating and subset-faithfulness quantify over all object lists, scores and subsets.",
  ["metrics/matcher.cc","metrics/matcher.h","metrics/iou.cc"],[("Hungarian matcher with rounding of IoU to integer weights","metrics/matcher.cc"),("score-first greedy matcher","metrics/matcher.cc"),("IoU threshold gate","metrics/matcher.cc")],obs=["prediction_matches / ground_truth_matches outputs"])
p("C03","IoU is symmetric, within [0,1], and zero for non-overlapping boxes",
  "For all boxes with non-negative dimensions, the intersection-over-union of two boxes is a number in [0, 1] that does not depend on argument order, is 1 (up to rounding) for a box of positive size against itself and 0 for boxes that do not overlap in plan or (for 3D) in height. For axis-aligned boxes it equals the exact area ratio, and for 3D it equals the ratio of overlapping volume to union volume computed from the plan overlap and height overlap.",
  "all pairs of boxes (finite centres, headings, non-negative sizes), for the axis-aligned, rotated 2D and 3D IoU",
  "Tests fix a few pairs; range, symmetry and the disjointness rule quantify over all box pairs including touching, degenerate and nested ones.",
  ["metrics/iou.cc","math/polygon2d.cc","math/box2d.cc"],[("2D and 3D IoU","metrics/iou.cc"),("polygon clipping","math/polygon2d.cc")])
p("C04","Localization-error-tolerant affinity and alignment follow their definition",
  "The longitudinal affinity of a detection is 1 minus its longitudinal error divided by the tolerance, clamped to [0, 1], where the tolerance grows with ground-truth range but never drops below the configured minimum. Aligning a prediction never changes its size or heading and follows the configured alignment type: it stays where it is, moves to the ground truth's centre, or moves along the sensor's line of sight to the point closest to the ground truth, the latter unconditionally or only when the prediction is farther or nearer than that point as the type says. The tolerant IoU is the IoU of the aligned prediction with the ground truth, both seen from the sensor.",
  "all prediction/ground-truth/sensor positions, tolerance percentages, minimum tolerances and alignment types",
  "Tests check single geometric set-ups; clamping and along-ray alignment must hold for every geometry and configuration.",
  ["metrics/iou.cc","metrics/iou.h"],[("longitudinal affinity","metrics/iou.cc"),("alignment along the line of sight","metrics/iou.cc")])
p("C05","2D geometry primitives satisfy their geometric definitions",
  "Vector rotation preserves length and inverts with the opposite angle, angle normalisation returns an equivalent angle in [-pi, pi), and segment distance, containment and intersection queries agree with the exact geometric definition. A box's corners, containment test and bounding box agree with its centre, heading, length and width.",
  "all finite vectors, angles, segments and boxes (in real arithmetic)",
  "Unit tests evaluate specific coordinates; the identities are universally quantified.",
  ["math/vec2d.h","math/segment2d.cc","math/segment2d.h","math/box2d.cc","math/box2d.h","math/aabox2d.h","math/math_util.h"],[("rotation, dot/cross products","math/vec2d.h"),("segment queries","math/segment2d.cc"),("box corners","math/box2d.cc")])
p("C06","Convex polygon intersection area is the true overlap area",
  "For convex polygons, the computed intersection area equals the area of the geometric intersection (up to floating-point tolerance): it is non-negative, at most the smaller area, symmetric, and zero for disjoint polygons. The quick overlap pre-test never answers 'no' for polygons that overlap.",
  "all pairs of convex polygons with finite vertices, in particular oriented boxes",
  "Tests use a few shapes; the degenerate configurations (touching, collinear, containing, nearly parallel edges) form an unbounded space.",
  ["math/polygon2d.cc","math/polygon2d.h"],[("clipping with exact predicates","math/polygon2d.cc"),("bounding-box pre-test","math/polygon2d.h")])
p("C07","Breakdown sharding is total, in range and follows the published buckets",
  "For every breakdown, each object falls in exactly one shard numbered from 0 to the number of shards minus 1, or in none when its type is unknown and the breakdown is per-type (or, for camera breakdowns, when it is outside every camera's field of view). Range breakdowns split at 30 and 50 metres, size at a largest dimension of 7 metres, velocity at 0.2, 1, 3 and 10 m/s, and camera breakdowns use the horizontal field of view containing the object's centre. The number of shards and the list of shard names of a breakdown have the same length and the names are distinct.",
  "all objects (every type, position, size, velocity), all breakdown generators",
  "Tests sample a few objects per breakdown; totality, exclusivity and exact boundary behaviour quantify over all objects.",
  ["metrics/breakdown_generator.cc","metrics/breakdown_generator.h"],[("per-breakdown shard computation","metrics/breakdown_generator.cc")])
p("C08","Detection measurements count every object exactly once",
  "For every frame, shard, difficulty level and score cutoff, each eligible ground truth is counted either as matched (true positive) or as missed (false negative) and never both; each eligible prediction is counted as true positive or false positive at most once; and ignored objects (in no-label zones or beyond the requested difficulty) never count as errors. (These counts are stated for the default minimum heading accuracy, which drops no match.) The heading accuracy accumulated for a true positive lies in [0, 1] and equals 1 minus the wrapped absolute heading difference divided by pi.",
  "all frames of predictions and ground truths, all matchings, difficulty levels, score cutoffs and breakdowns",
  "Tests compare a few hand-built frames; conservation of counts must hold for every frame and matching.",
  ["metrics/detection_metrics.cc","metrics/metrics_utils.cc"],[("per-shard measurement","metrics/detection_metrics.cc"),("TP/FP/FN rules","metrics/metrics_utils.cc")])
p("C09","Detection precision, recall and average precision follow from the counts",
  "Merging detection measurements adds counts cutoff by cutoff. Recall is TP/(TP+FN), 0 when the denominator is 0; precision is TP/(TP+FP), reported as 1 when the recall is 0 and otherwise as 0 when it is below the configured minimum; both lie in [0, 1]. The heading- and localisation-weighted precisions replace TP in the numerator by the accumulated accuracies. The average precision is the area under the interpolated precision-recall curve (the precision at a recall being the largest at any recall not below it), lies in [0, 1], equals 1 for a perfect curve, and does not depend on the order of the measurements.",
  "all lists of measurements and cutoffs",
  "Tests check single curves; bounds, monotonicity and order independence quantify over all curves.",
  ["metrics/detection_metrics.cc"],[("merging of measurements","metrics/detection_metrics.cc"),("average precision integration","metrics/detection_metrics.cc")])
p("C10","Automatically chosen score cutoffs are sorted and drawn from the data",
  "The score cutoffs derived from a set of predictions with scores in [0, 1] are as many as requested, in ascending order and in [0, 1]. A single cutoff is 0; several end at 1; when there are more scores than cutoffs they start at the smallest score, every cutoff but the last is the score of some prediction taking part in the evaluation and they split the sorted scores into groups of near-equal size; otherwise they are equally spaced from 0. Choosing cutoffs for tracking considers the predictions of every scene and every frame of the evaluation.",
  "all multisets of prediction scores and all requested numbers of cutoffs",
  "Tests use two or three score sets; order, completeness and provenance are universally quantified.",
  ["metrics/metrics_utils.cc","metrics/tracking_metrics.cc","metrics/detection_metrics.cc"],[("cutoff selection","metrics/metrics_utils.cc"),("tracking cutoff estimation","metrics/tracking_metrics.cc")])
p("C11","Multi-object tracking keeps a one-to-one map and conserves counts",
  "After every frame, the tracker evaluator's correspondence between ground-truth tracks and predicted tracks is one-to-one, and a correspondence whose two tracks are both present and may still be matched is kept. In every frame matches plus misses equals the number of ground truths that count (an unmatched ground truth beyond the requested difficulty level does not), and matches plus false positives equals the number of distinct predicted tracks that count (an unmatched one in a no-label zone does not). A mismatch (identity switch) is reported only when a ground-truth track is matched to a different predicted track than the one it was last matched to, or when a predicted track is taken over from a ground-truth track that is absent from the frame.",
  "all sequences of frames of predictions and ground truths with arbitrary ids",
  "Identity bookkeeping depends on the whole history of frames; tests play a few scripted sequences.",
  ["metrics/mot.cc","metrics/mot.h"],[("correspondence map update","metrics/mot.cc"),("mismatch counting","metrics/mot.cc")],over=("inputs","histories"),state=[("track correspondence","which prediction each ground-truth track was last matched to","metrics/mot.h")])
p("C12","Tracking accuracy and precision follow from the accumulated counts",
  "Merging tracking measurements adds matches, misses, false positives, mismatches, matching costs and ground-truth counts cutoff by cutoff. The reported miss, false-positive and mismatch ratios are those counts divided by the number of ground truths, the reported accuracy is 1 minus their sum at the cutoff where it is largest (the first such cutoff on a tie; all reported values are 0 when no cutoff has a positive accuracy), and the reported precision is the mean localisation error over matches at that same cutoff (0 without matches).",
  "all lists of tracking measurements and cutoffs",
  "Tests check a couple of aggregates; the formulas are universally quantified.",
  ["metrics/tracking_metrics.cc"],[("merging","metrics/tracking_metrics.cc"),("conversion of measurements to metrics","metrics/tracking_metrics.cc")])
p("C13","Point-cloud segmentation IoU follows from the confusion counts",
  "For every sequence of labelled frames, the reported per-class IoU is the number of points both labelled and predicted as the class divided by the number labelled or predicted as it, where a prediction counts only on points whose label is an evaluated class (1 for a class without points), and the mean IoU is the average over the evaluated classes. Accumulating frames one by one, in any order, or merging partial results gives the same value.",
  "all frames of ground-truth and predicted segmentation labels",
  "Tests use small fixed label grids; the counting identity quantifies over all label images and accumulation orders.",
  ["metrics/segmentation_metrics.cc","metrics/segmentation_metrics.h"],[("confusion accumulation","metrics/segmentation_metrics.cc")],over=("inputs","histories"))
p("C14","Motion submissions are accepted exactly when well formed",
  "A motion prediction set is accepted for a scenario only if the configuration is usable (positive sampling rates, the track rate a multiple of the prediction rate, every measurement step inside the prediction), the scenario ids match, the scenario's tracks to predict exist and have the configured number of states, every predicted trajectory has the configured number of points, all joint predictions of one multimodal prediction cover the same objects, and the set of predicted objects equals the set the scenario asks for; otherwise an error is returned. Challenge submissions with the wrong number of objects per prediction or mismatching coordinate counts are rejected, and converting an accepted challenge submission preserves every object id, confidence and coordinate in order.",
  "all submissions, scenarios and configurations",
  "Tests reject a few hand-made bad submissions; acceptance must be exact for every submission.",
  ["metrics/motion_metrics.cc","metrics/motion_metrics_utils.cc"],[("validation","metrics/motion_metrics.cc"),("challenge conversion","metrics/motion_metrics_utils.cc")])
p("C15","Motion metrics equal their definitions",
  "For every multimodal prediction, of which the first max_predictions joint predictions are evaluated: the minimum average (final) displacement error is the smallest, over the evaluated joint predictions for which it is defined, of the mean over the predicted objects of the mean distance to the true positions over the valid steps up to the measurement step (the distance at that step); a miss is counted exactly when a decided evaluated joint prediction exists and each of them leaves the lateral or longitudinal threshold, scaled by the object's speed, for some object; an overlap is counted exactly when the box of the most confident evaluated joint prediction intersects another object that is valid at the current step and at some step up to the measurement step. Mean average precision is the area under the interpolated precision-recall curve of the samples of each motion type (at most one true positive per ground truth, duplicates skipped in the soft variant), averaged over the types with samples, and lies in [0, 1]. Accumulated statistics add up and do not depend on the order in which scenarios are accumulated.",
  "all accepted scenarios and predictions with non-negative confidences, and configurations with max_predictions >= 1 and a non-empty speed range with positive scales",
  "Tests run a few synthetic scenarios; the definitions quantify over all trajectories, validity patterns and configurations.",
  ["metrics/motion_metrics.cc","metrics/motion_metrics.h","metrics/motion_metrics_utils.cc"],[("displacement errors","metrics/motion_metrics.cc"),("miss rate","metrics/motion_metrics.cc"),("mean average precision","metrics/motion_metrics.cc"),("trajectory type classification","metrics/motion_metrics_utils.cc")])
p("C16","Metric names are distinct and match the metric order",
  "The list of breakdown names produced from a detection or tracking configuration has exactly one entry per reported metric, in the order the metrics are reported, with no duplicates for distinct breakdowns. The list produced from a motion configuration has one entry per object type and step, and motion metrics (reported for the object types that occur) are reported in that order. The C++ and Python implementations produce the same names for every configuration.",
  "all configurations (breakdown generators with difficulty levels, step configurations)",
  "Tests compare one configuration; agreement and order are quantified over all configurations.",
  ["metrics/config_util.cc","metrics/python/config_util_py.py"],[("C++ breakdown names","metrics/config_util.cc"),("Python breakdown names","metrics/python/config_util_py.py")],over=("configurations",))
p("C17","Camera projection is consistent for global and rolling shutter",
  "A 3D point is reported as visible only when it is in front of the camera and inside the image, and projecting it undistorts/distorts according to the camera intrinsics. Unprojecting the image position of a visible point at its depth returns the original point (up to numerical tolerance), for global shutter and for every rolling-shutter readout direction.",
  "all calibrations with moderate distortion, poses, points and readout directions",
  "Tests use one recorded calibration; the round trip quantifies over all points, poses and readout directions.",
  ["wdl_limited/camera/camera_model.cc","wdl_limited/camera/camera_model.h"],[("world-to-image","wdl_limited/camera/camera_model.cc"),("image-to-world","wdl_limited/camera/camera_model.cc")])
p("C18","Scenario conversion yields fixed-size, faithfully ordered features",
  "Converting a scenario to training features always yields features of the sizes fixed by the configuration, whatever the number of agents, map points and traffic lights in the scenario. Values of an included agent, map point or traffic light are copied unchanged, unused slots are filled with the documented padding, and every agent that must be predicted is included.",
  "all scenarios and configurations",
  "Tests convert one or two scenarios; sizes and padding must hold for all scenario sizes.",
  ["data_conversion/scenario_conversion.cc","data_conversion/scenario_conversion.h"],[("agent selection and feature filling","data_conversion/scenario_conversion.cc"),("map sampling","data_conversion/scenario_conversion.cc")])
p("C19","Range-image delta compression round-trips within the quantisation step",
  "Decompressing a delta-compressed range image returns an image of the same shape whose every value is within half the quantisation step of the original (equal to it when the values are multiples of the step), up to the single precision in which the step is stored, for every non-empty image of at most 65535 per dimension; larger images, a wrong number of steps and steps that are not positive are rejected with ValueError. Compressing does not modify the caller's image.",
  "all images with finite values, all sparsity patterns and quantisation precisions",
  "Tests round-trip a few random images; losslessness and non-interference quantify over all images.",
  ["utils/compression/delta_encoder.py"],[("delta and mask coding","utils/compression/delta_encoder.py")])
p("C20","Rater trajectories are padded and truncated without changing points",
  "Fitting a batch of non-empty rater trajectories to the requested number of points and raters keeps every surviving point unchanged and in place, truncates what exceeds the requested length, and pads what is missing by repeating the last point (and the last rater with its label); the result always has the requested shape, and different numbers of trajectories and labels are rejected with ValueError.",
  "all ragged batches of trajectories and all requested lengths",
  "Tests use few shapes; shape and content preservation quantify over all shapes.",
  ["metrics/python/rater_feedback_utils.py"],[("padding and truncation","metrics/python/rater_feedback_utils.py")])
p("C21","Rater feedback score is bounded and follows the trust-region definition",
  "The rater feedback score of a batch is computed per example from the longitudinal and lateral error of each proposed trajectory against each rater trajectory, scaled by the initial speed: at 3 s and 5 s a proposal inside the trust region of a rater trajectory receives that rater's score and outside it the score decays exponentially with the normalised distance; the best rater counts, the two times are averaged, a proposal that is not inside the trust region of any rater at both times scores at least the floor, and the result is the probability-weighted sum. No proposal scores above both the floor and the best rater score. Scoring an example does not depend on the other examples of the batch, and a permutation of the batch permutes the scores.",
  "all batches of proposals, probabilities, rater trajectories, rater labels and initial speeds",
  "Tests check a few crafted cases; bounds and batch independence are universal.",
  ["metrics/python/rater_feedback_utils.py"],[("feedback score","metrics/python/rater_feedback_utils.py")])
p("C22","Map plotting draws every polyline point faithfully",
  "Plotting a list of map features with distinct ids hands over one point per polyline vertex, in order, with the vertex's coordinates, the feature's id and the drawing type of the feature's kind and declared type (every declared lane, road line and road edge type, stop signs, crosswalks, speed bumps and driveways), polygons being closed by repeating their first vertex; features of no known kind are left out. Each feature with at least one point is then drawn as one connected trace of exactly those points, in the colour and dash of its type. A map without points gives an empty plot.",
  "all maps with any combination of features",
  "Tests plot one small map.",
  ["utils/plot_maps.py"],[("feature-to-point conversion","utils/plot_maps.py"),("plotting","utils/plot_maps.py")])
p("C23","Sim-agents submissions are accepted exactly when well formed",
  "A sim-agents (or scenario-generation) submission for a scenario is accepted if and only if it names that scenario, contains exactly 32 joint scenes, every scene contains each object that must be simulated exactly once and no other, and every trajectory has exactly the required number of samples (80, or 91 for scenario generation) of centre x, y, z and heading; otherwise ValueError is raised. The objects to simulate are exactly those valid at the current (11th) step, in track order, and those to evaluate are the requested ones plus the self-driving car without repetition (for scenario generation, the simulated ones).",
  "all submissions and scenarios",
  "Tests mutate a few fields; acceptance must be exact for every submission.",
  ["utils/sim_agents/submission_specs.py"],[("validation","utils/sim_agents/submission_specs.py")])
p("C24","Latency objects carry each detection unchanged with its frame identity",
  "Converting a directory of saved latency-run results (N detections with 7-column 3D or 4-column 2D boxes) yields one object per valid detection, in order, with that detection's box, score and type and with the given context name and timestamp; a detection is left out exactly when its score is below 0.03 or a box dimension is below 1 cm. 2D results carry the camera named by their only input field and are rejected with ValueError without exactly one camera-image input; differing numbers of boxes, classes and scores are rejected.",
  "all saved result sets",
  "No unit test exercises it without large dependencies.",
  ["latency/make_objects_file_from_latency_results.py"],[("conversion","latency/make_objects_file_from_latency_results.py")])
p("C25","Camera token decoding looks up every token",
  "Attaching camera data to a scenario returns a copy whose camera token frames are the scenario's followed by those of the camera data, unchanged and in order, with every other field as in the scenario and neither argument modified. Decoding a non-empty token array returns one embedding per token, in order, equal to the codebook row of the token; a token outside the codebook is rejected with ValueError.",
  "all token arrays and codebooks",
  "Tests use random small data.",
  ["utils/womd_camera_utils.py"],[("codebook lookup","utils/womd_camera_utils.py")])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")

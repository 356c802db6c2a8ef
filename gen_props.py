#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

HOOK="prefetch buffer minimum size overridable at build time (LITIV_SIM_CACHE_MIN_SIZE), so that small buffers fill and wrap"
DU="modules/datasets/src/utils.cpp"; DH="modules/datasets/include/litiv/datasets/utils.hpp"
CX="modules/utils/include/litiv/utils/cxx.hpp"; CC="modules/utils/src/cxx.cpp"
OC="modules/utils/src/opencv.cpp"; PF="modules/utils/src/platform.cpp"

p("P01","Precaching never changes the data a loader returns",
  "For any sequence of packet requests (in order, skipping, repeated, backwards, past the end), interleaved with starting, stopping and restarting precaching with any buffer size, each request returns exactly the packet the underlying loader produces for that index (empty past the end). The returned packet stays intact until the next request on that loader, also when precaching is stopped or restarted in between.",
  ["schedules","histories","inputs"],"every interleaving of requester and prefetch thread, every request history, every packet size mix and buffer size",
  "Existing tests read each packet once, in order, with one schedule and a buffer that never fills; wrap-around, out-of-order and restart histories need a particular interleaving.",
  [DU,DH],[("prefetch ring buffer and request/answer handshake","lv::DataPrecacher::getPacket/entry/startAsyncPrecaching/stopAsyncPrecaching")],
  observe="DataPrecacher::getPacket return value",hook=HOOK,state=[("prefetch buffer","bytes and packets loaded ahead of the reader",DU),("request slot","index asked for and packet handed back",DH)])
p("P02","Loader and resource failures during precaching are reported, not absorbed",
  "When the underlying loader throws, memory runs out or the prefetch thread cannot be started while precaching, the failure reaches the caller as an exception from the request, start or stop call that meets it; a failure already reported is not reported again. Afterwards the precacher can still be used, stopped, restarted and destroyed, no call hangs or terminates the process, and every packet that is returned is still the right one.",
  ["schedules","fault_sequences","histories"],"every interleaving and every placement of loader, allocation and thread-creation failures in a request history",
  "No test injects a failure into a loader, an allocation or a thread creation while the prefetch thread runs.",
  [DU,DH],[("exception hand-over from prefetch thread","lv::DataPrecacher::entry/getPacket/stopAsyncPrecaching")],observe="exceptions from the public calls",hook=HOOK)
p("P03","Packet requests and precaching shutdown always make progress",
  "Once started, every packet request and every stop of precaching completes within a bounded time whatever the thread scheduling, spurious wake-ups, delayed threads or wall-clock adjustments, and after a stop has returned the loader is no longer called in the background. Before precaching has reached the end of the stream or filled its buffer it keeps fetching ahead, so a sequential reader that pauses finds packets ready instead of loading them on demand.",
  ["schedules","fault_sequences"],"every schedule incl. spurious wake-ups, stalls and clock jumps, for every request history",
  "A lost wake-up or an unbounded wait shows up only in rare interleavings and tests have no control over them.",
  [DU],[("bounded waits and condition variables","lv::DataPrecacher::getPacket/entry")],observe="simulated completion time of public calls; loader call log",hook=HOOK)
p("P04","Asynchronous writer hands over each accepted packet exactly once",
  "Every packet accepted by the asynchronous data writer is passed to the archiving callback exactly once, with the content it had when it was queued even if the caller reuses the buffer, and before stopping returns; re-queuing an index replaces the pending packet or, if that one is already being written, is written after it, so that the last queued content is the last one written. This holds for any number of producer and writer threads and two writes of one index never overlap.",
  ["schedules","histories","configurations"],"every interleaving of 1-4 producers and 1-4 writers over every queue/stop/restart history",
  "The writer has no unit test at all; duplicated or lost writes depend on the interleaving of several workers.",
  [DU,DH],[("writer queue and worker loop","lv::DataWriter::queue/entry/stopAsyncWriting")],observe="archiving callback invocations",hook=None,state=[("pending-packet map","accepted packets not yet written",DH)])
p("P05","Writer queue respects its size limit and its counters stay exact",
  "At no time does the asynchronous writer hold more packet bytes than its queue limit; a producer that would exceed it blocks only until its own packet fits, or has its packet dropped (and is told so, with no effect) when dropping is allowed, and a packet is never dropped when there is room. The reported queue count and size equal the packets not yet written at quiescent points and are zero after stopping.",
  ["schedules","histories","configurations"],"every interleaving and queue history with packets of mixed sizes, blocking or dropping mode",
  "Needs full-queue states reached by several threads at once.",
  [DU,DH],[("queue accounting","lv::DataWriter::queue/queue_check/entry")],observe="queue return values, counters",hook=None)
p("P06","Writer failures are contained and surface when stopping",
  "If the archiving callback throws for some packets, or writer threads or memory cannot be obtained, all other accepted packets are still written exactly once, producers never hang, and the failure is raised to the caller of the failing queue or start call or of the next stop. After the failure was raised the writer can be restarted and destroyed normally without seeing it again.",
  ["schedules","fault_sequences"],"every interleaving and placement of callback, thread-creation and allocation failures",
  "No test makes the callback, the allocator or thread creation fail.",
  [DU,DH],[("worker exception stack","lv::DataWriter::entry/stopAsyncWriting/startAsyncWriting/queue")],observe="exceptions from the public calls",hook=None)
p("P07","Worker pool runs every queued task exactly once and drains on destruction",
  "Every task accepted by the worker pool is executed exactly once, tasks start in the order they were queued, never more tasks at once than there are workers, and a free worker picks up a queued task without further events. Destroying the pool blocks until all queued tasks have finished and then every worker is gone; queuing from several threads, or from inside a task, is safe.",
  ["schedules","histories"],"every interleaving of producers, tasks queuing tasks, and pool destruction",
  "The two pool tests sample one OS schedule with sleeping tasks.",
  [CX],[("task queue, condition variable and drain loop","lv::WorkerPool::queueTask/entry/~WorkerPool")],observe="task execution log",hook=None)
p("P08","Worker pool delivers each result or exception to its own future",
  "The future returned when queuing a task yields that task's own return value or the exception it threw, becomes ready once the task is done and not before, and is never left broken; a throwing task does not disturb the pool or other tasks. If a worker thread cannot be created, or memory runs out, the constructor or queuing call reports it and nothing hangs or terminates the process.",
  ["schedules","fault_sequences"],"every interleaving, every subset of throwing tasks, every thread-creation or allocation failure position",
  "Tests never fail a task together with concurrent queuing, and never fail thread creation.",
  [CX],[("packaged task plumbing","lv::WorkerPool::queueTask/entry/WorkerPool")],observe="std::future of each task",hook=None)
p("P09","Semaphore conserves resources and never loses a wake-up",
  "At all times the number of successful acquisitions is at most the initial count plus the number of notifications, and the reported count is the exact difference at quiescent points. A waiter proceeds whenever a resource is available for it, a non-blocking attempt never blocks and fails only if nothing was available, and a timed wait returns failure only after its deadline and with no resource consumed.",
  ["schedules","fault_sequences"],"every interleaving of waiters, notifiers, timeouts and spurious wake-ups",
  "Lost wake-ups and timeout/notify races need particular interleavings.",
  [CX],[("semaphore","lv::Semaphore")],observe="return values of wait/try_wait/wait_for/wait_until/count",hook=None)
p("P10","Unlock guards release their locks in scope and hold them all again after",
  "While an unlock guard is alive the given locks are free for other threads, and when its scope ends, normally or by exception, the calling thread owns every one of them again before continuing. Several guards over the same set of locks, in any order and on any number of threads, never deadlock among themselves.",
  ["schedules","configurations"],"every interleaving of threads using single and multi-lock guards in any order, with and without exceptions",
  "Deadlock and missed relock depend on timing of other lock users.",
  [CX],[("unlock guard","lv::unlock_guard")],observe="lock ownership and mutual exclusion",hook=None)
p("P11","Log messages come out whole, once, and in each thread's order",
  "Messages logged concurrently through the framework's logging helpers appear in the output stream complete, exactly once, unmixed with other messages and in program order per thread, for any message length; messages above the verbosity level do not appear. Progress updates shared between threads only ever show increasing completion and respect the refresh interval in elapsed time.",
  ["schedules","inputs"],"every interleaving of logging threads and every message length",
  "Interleaved output and length corner cases depend on schedule and length.",
  [CX,CC,"modules/utils/include/litiv/utils/console.hpp"],[("log mutex","lv::safe_print, lv::ostream_guard, lv::getLogMutex"),("progress bar","lv::ProgressBarManager")],observe="characters reaching the stream buffer",hook=None)
p("P12","An acknowledged matrix write can be read back bit for bit",
  "If archiving a matrix in the binary, plain-text (finite values) or uncompressed structured-storage format returns without error, reading that archive gives the same type, size and content, even if disk-full, I/O errors, interrupted or short writes happened on the way; otherwise an error is raised. Readers and writers of different archives running concurrently on several threads never affect each other, and empty matrices or paths are refused.",
  ["fault_sequences","inputs","schedules"],"every placement of write-path failures, every matrix type/size, concurrent writers on several threads",
  "Tests write to a healthy disk from one thread.",
  [OC],[("matrix archives","lv::write/lv::read")],observe="lv::write outcome vs. later lv::read",hook=None)
p("P13","Reading a torn or damaged binary archive fails cleanly",
  "Reading a binary archive that was cut short, for example by a crash during writing, either raises an error or returns exactly the matrix that was written, never a partial or foreign one. A damaged header is refused with an error whenever its fields contradict each other or the amount of data present, and never leads to out-of-bounds access, a crash, a hang or an allocation beyond the data present; a disk error while reading is raised, and short or interrupted reads are completed.",
  ["crash_points","fault_sequences","inputs"],"every byte position of a crash during writing, every read fault, damaged header fields",
  "Tests only read complete archives.",
  [OC],[("binary archive reader","lv::read")],observe="lv::read outcome",hook=None)
p("P14","Parallel image operations give one result for every schedule",
  "Median blur, binary median blur and consensus filters, image and descriptor affinity maps, plain, masked and binary integral images, histograms and median values, temporal differences along a flow, offset maps, Gaussian mixture estimation, thinning and non-maximum suppression give bit-identical results to a sequential run for any number of threads and any interleaving, including when several callers run them at the same time; everything but the mixtures is what its definition says, whatever the output matrix, the input buffers or the calling thread were used for before. Valid calls never fail, inputs are not modified, and threads never race on memory or access it out of bounds.",
  ["schedules","configurations","inputs"],"every team size, loop-chunk assignment and interleaving; concurrent callers; any output matrix state",
  "Tests compare one schedule on one machine against stored results.",
  ["modules/imgproc/src/imgproc.cpp","modules/imgproc/include/litiv/imgproc.hpp","modules/utils/src/opencv.cpp"],[("parallel loops with per-thread scratch buffers","lv::medianBlur, binaryMedianBlur, binaryConsensus, computeImageAffinity, computeDescriptorAffinity, integral, binaryIntegral"),("other operations","lv::thinning, nonMaxSuppression, calcHistCounts, calcMedianValue, computeTemporalAbsDiff, remap_offset, lv::getSubPix")],observe="output matrices",hook=None)
p("P15","Parallel descriptors and optical flow give one result for every schedule",
  "Local self-similarity, shape context, binary similarity pattern and adaptive self-correlation descriptors, mutual information scores and dense optical flow give, for every described point, bit-identical results to a fresh sequential run for any number of threads and any interleaving, independent of what the instance, its work buffers or the passed output matrix were used for before (other images, sizes or keypoints, also in the very same buffers), of uninitialised memory and of other instances running concurrently. Inputs are not modified and their threads never race on memory.",
  ["schedules","configurations","histories"],"every team size, chunk assignment and interleaving; instance and output reuse histories; concurrent instances",
  "Tests compare one schedule and mostly fresh instances.",
  ["modules/features2d/src/LSS.cpp","modules/features2d/src/SC.cpp","modules/features2d/src/LBSP.cpp","modules/features2d/src/DASC.cpp","modules/features2d/src/MI.cpp","3rdparty/ofdis/src/patchgrid.cpp","3rdparty/ofdis/src/ofdis.cpp"],[("parallel descriptor loops","LSS::ssdescs_impl, ShapeContext::scdesc_fill_desc_direct"),("patch grid loops","ofdis::PatGridClass"),("per-thread scratch","MutualInfo::compute, ofdis::computeFlow")],observe="descriptor/flow matrices and scores",hook=None)
p("P16","Processing sessions count outputs exactly, for every session",
  "For each processing session of a work batch the current output count is the number of distinct packets pushed in that session since it started or was last reset, and the final count and final time, requested from any thread, block until the session ends and then give that session's exact count and elapsed time, never negative even if the wall clock is adjusted. Sessions can be started, stopped, reset and repeated any number of times, and group and dataset totals equal the sums over their batches.",
  ["schedules","histories","fault_sequences"],"every history of start/push/stop/reset calls, every interleaving with observers, clock jumps",
  "Tests run one session per batch from one thread.",
  ["modules/datasets/include/litiv/datasets.hpp",DU,DH],[("promise/future based counters","lv::IDataCounter"),("session state","lv::WorkBatch start/stopProcessing")],observe="getCurrent/FinalOutputCount, getFinalProcessTime",hook=None)
p("P17","Concurrent batch processing equals sequential processing",
  "Processing the batches of a dataset concurrently on a worker pool, with precaching and output saving, produces for every batch the same inputs, ground truth, saved output files, evaluation counts and reports as processing them one after the other, under any schedule, without modifying the caller's inputs or outputs. A batch that fails leaves the results of the other batches unchanged.",
  ["schedules","fault_sequences","configurations"],"every interleaving of 1-4 workers over multi-batch datasets, with failing batches",
  "Tests process batches sequentially.",
  ["modules/datasets/include/litiv/datasets.hpp",DU,"modules/datasets/src/eval.cpp","modules/datasets/src/metrics.cpp","apps/changedet/src/main.cpp"],[("dataset/batch/evaluator plumbing","lv::IDataset_/WorkBatch/IDataLoader/IDataArchiver/IMetricsAccumulator")],observe="saved files, metrics, reports",hook=HOOK)
p("P18","Saved features load back unchanged through any loader",
  "Features saved for a packet before a dataset object first loads or precaches them are returned by its later loads of that packet, single or as an array of matrices, with or without precaching and from a fresh dataset object after a restart, exactly as they were saved; when saving failed or was cut short by a crash the save call reports it or the load reports an error or nothing, and the load never returns partial or foreign data (with precaching, an unreadable file of another packet may surface its error in any later request). Loading the packets' streams separately, as arrays or repeatedly always gives consistent results, and stopping or destroying a batch ends all of its prefetching even when an error is pending.",
  ["histories","crash_points","fault_sequences","schedules"],"every history of saves, loads and restarts with I/O failures and crashes",
  "Tests save and load each feature packet once on a healthy disk.",
  [DU,OC],[("feature store","lv::IIDataLoader::saveFeatures/loadFeatures, IDataLoader_<Array>::loadFeaturesArray"),("packing","lv::packData/unpackData")],observe="loadFeatures/loadFeaturesArray results",hook=HOOK)
p("P19","Directory preparation is race-free and reports failure truthfully",
  "Creating directories from several threads or processes at once (createDirIfNotExist) leaves every requested directory present and reports success exactly to callers for whom the directory exists afterwards, whichever of them created it; when the disk refuses, or something other than a directory has the name, failure is reported. Directory listings return every entry exactly once in a fixed order that does not depend on the order the file system enumerates them.",
  ["schedules","fault_sequences","configurations"],"every interleaving of creators, every mkdir/stat failure placement, every enumeration order",
  "Tests create directories from one thread and see one enumeration order.",
  [PF,DU],[("check-then-create","lv::createDirIfNotExist"),("listing","lv::getFilesFromDir/getSubDirsFromDir")],observe="return values and file system state",hook=None)
p("P20","Background subtraction depends only on its frames and random draws",
  "Given the same frames, parameters and random draws, each background subtractor produces the same foreground masks, background image and descriptor image whatever memory or the passed output matrix held before, how instances are interleaved with other instances on other threads, or what time it is, and whatever the caller does afterwards with the frames it passed and the images it got; an instance that is initialised again behaves like a new one with the same settings. Masks have the size of the frame, contain only 0 and 255, and are written only within the passed matrix; input frames are never modified.",
  ["schedules","histories","configurations"],"every interleaving of concurrent instances, every initial heap content, output matrix and re-initialisation history, all five algorithms",
  "There is no test for the video module, and uninitialised or shared state only shows under particular heap contents and interleavings.",
  ["modules/video/src/BackgroundSubtractorLOBSTER.cpp","modules/video/src/BackgroundSubtractorSuBSENSE.cpp","modules/video/src/BackgroundSubtractorPAWCS.cpp","modules/video/src/BackgroundSubtractorViBe.cpp","modules/video/src/BackgroundSubtractorPBAS.cpp","modules/features2d/src/LBSP.cpp"],[("per-instance models","IBackgroundSubtractor::apply")],observe="foreground masks",hook=None)
p("P21","Preallocating a file reaches the asked size or raises an error",
  "Creating a binary file with preallocation leaves a stream at position zero over a file of at least the requested size, new bytes being zero if zero-initialisation was asked for, with any content that was already in the file untouched, whatever size was asked for. If the disk is full or an open, seek or write fails, an error is raised instead and existing content is still untouched; a stream that is handed back accepts writes over the whole requested range.",
  ["fault_sequences","inputs","histories"],"every requested and existing size, every placement of disk-full and write errors",
  "The test preallocates one file on a healthy disk.",
  [PF],[("block-wise preallocation","lv::createBinFileWithPrealloc")],observe="stream state, file content and size",hook=None)
VP="modules/vptz/src/virtualptz.cpp"
p("P22","The virtual PTZ camera plays, moves and shows exactly what was asked for",
  "Once playing, the camera's time advances at each wait by exactly the time spent outside of the camera since the last wait or the start (scaled by the execution delay ratio, without the time spent fetching frames, never negative), the time the last move takes at the camera's speeds along the shortest way, and the communication delay; its position is the nearest frame of that time but always at least one frame further, waits return false exactly from the end of the video on, starting again resets everything, and wall-clock adjustments have no effect. Every fetched frame shows the panoramic frame of the current position from the current direction and field of view, upright and at the output size, whatever other cameras or contexts exist, were used or destroyed in between; when it cannot be decoded an empty frame is returned and later ones are unaffected. Moving to a point turns to the direction of that pixel; directions always stay within (-180,180] and [0,180], projecting and unprojecting agree with the view geometry and with each other, and refused calls change nothing. A video or image that cannot be played (missing, undecodable, not in colour, of a single frame, of unknown length without metadata or longer than announced, that cannot be positioned) is refused when opened, leaving no window behind and other cameras usable.",
  ["histories","configurations","fault_sequences","inputs"],"every history of plays, moves, waits, frames and settings on several cameras, every execution time and decoder or window failure",
  "There is no test for the module; it needs an OpenGL context, and its behaviour depends on elapsed time and on the history of calls.",
  [VP,"modules/vptz/include/litiv/vptz/virtualptz.hpp"],[("playing time","vptz::Camera::WaitDelay/BeginPlaying/GetFrame"),("view","vptz::Camera::Set/GoToPosition/GetFrame, vptz::PTZPointXYtoHV/PTZPointHVtoXY, vptz::GTTranslator")],observe="frames, positions, delays and angles returned by the camera; OpenGL calls it makes",hook=None)
p("P23","Tracker evaluations record exactly one correct result per evaluated frame",
  "For every history of test setups (also failing ones), frame requests and result updates, the evaluator's report states the settings of its test and holds, for each test sequence set up, one entry in order with exactly one result per accepted update, recorded under the position of the frame the tracker was given: the distance between the tracked box's centre and the projected ground truth point and between that point and the image centre (or -1 when the point is not in the view or the box is too small), and the overlap of the tracked box with the projected ground truth box of that same frame, between 0 and 1. Averages and ratios of a sequence are those of its results, overall figures average the completed sequences, and a sequence that failed or was abandoned influences no other entry. A result is accepted at most once per returned frame; frames are returned only within the tested range, in increasing order, and the initial frame, target and mask are those of the first tested frame.",
  ["histories","fault_sequences","inputs"],"every history of setups, requests and updates over several sequences, with damaged ground truth, failing decoders and windows",
  "There is no test for the module.",
  [VP],[("evaluation","vptz::Evaluator::SetupTesting/BeginTesting/GetNextFrame/UpdateCurrentResult/EndTesting")],observe="frames returned and report written",hook=None)
EDG=["modules/imgproc/src/EdgeDetectorLBSP.cpp","modules/imgproc/src/EdgeDetectorCanny.cpp","modules/imgproc/src/EdgeDetectionUtils.cpp","modules/imgproc/src/imwarp.cpp","modules/features2d/src/LBSP.cpp"]
p("P24","Edge detectors and the image warper depend only on the current input",
  "Edge detectors (LBSP- and Canny-based) and the image warper return, for the same input and parameters, the same result whatever the instance processed before (other sizes, types, parameters, failed calls), whatever memory or the passed output held, and whatever other instances do on other threads. Masks have the size of the image and hold only 0 or 255; the sweep over all thresholds is the accumulation of the masks of the single thresholds; LBSP edge masks are those of their definition (gradient responses over the image pyramid, non-maximum suppression, hysteresis), also for images smaller than a descriptor on some pyramid level. Warps move control points onto their targets, reproduce rigid and similarity motions, are the identity for ratio zero and finite for coincident points. Inputs are not modified, nothing outside of the images is accessed, and an instance whose call failed (refused input, failed allocation) works normally afterwards.",
  ["histories","schedules","fault_sequences","inputs"],"every history of calls on an instance, every interleaving of concurrent instances, every failing allocation, every initial heap content",
  "The tests call one fresh instance with ordinary images; out-of-bounds accesses and state left from earlier calls do not show.",
  EDG,[("edge detectors","EdgeDetectorLBSP/EdgeDetectorCanny::apply/apply_threshold, lv::IEdgeDetector"),("warper","lv::ImageWarper/imwarp")],observe="masks and warped images returned",hook=None)
DIM="modules/datasets/include/litiv/datasets/impl/"
p("P25","Dataset parsers pair every input with its own ground truth",
  "Whatever order the file system lists entries in, and for every scale factor and option, the dataset parsers (CDnet 2012/2014, Wallflower, PETS2001, BSDS500, LITIV-bilodeau2014, VAP-trimodal2016) produce one work batch per sequence on disk, and return for every packet index the input image of that index, the ground truth, masks and region of interest that belong to it (or none where none exists), in the declared size and type, converted, rescaled and calibrated as documented; masks stay binary. Datasets with missing, extra, damaged or contradicting files are refused with an error rather than paired wrongly; a failing read raises an error or is retried but never yields another or a partial packet, and later reads are unaffected. Work groups that are skipped or empty never block the parser.",
  ["configurations","fault_sequences","inputs","schedules"],"every directory order, sequence layout, scale, option and damaged or failing file",
  "The datasets are not available to the tests, which use a custom parser; the built-in ones are never run.",
  [DIM+x for x in ("CDnet.hpp","Wallflower.hpp","PETS2001.hpp","BSDS500.hpp","litiv-bilodeau2014.hpp","vap-trimod2016.hpp")]+[DU],[("parsers","lv::DataProducer_<...>::parseData/getRawInput/getRawGT"),("work batches","lv::IDataset_/DataGroupHandler")],observe="packets, counts, infos and ROIs returned by the batches",hook=HOOK)
p("P26","Edge evaluation counts, scores and reports are those of the outputs",
  "For every edge output, stack of ground truth masks and threshold count, the BSDS500 edge evaluation counts per threshold the ground truth pixels, the thinned detections at or above that threshold, and one-to-one matches between both that are at most 0.0075 image diagonals apart (the largest possible number of them where few pixels compete); recall, precision and F-measure at each threshold, the best score over the interpolated curve, the best score of each image, the scores at the images' own best thresholds and the area under the curve follow from these counters by their definition, and are finite also when nothing was detected or annotated. Merging accumulators is evaluating all of their images, accumulators compare equal exactly when their counters are, coloured masks show matched, missed and wrong pixels of each stacked ground truth, and the report files of a batch, of its group and of the dataset hold the scores of the outputs that were pushed. All of this holds while other batches are evaluated on other threads; evaluated images are not modified and refused ones change nothing.",
  ["inputs","schedules","histories"],"every output and ground truth content, threshold count, batch split, merge order and interleaving of concurrent evaluations",
  "The dataset is not available to the tests: the evaluation is never run by them.",
  ["modules/datasets/src/impl/BSDS500.cpp",DIM+"BSDS500.hpp","3rdparty/bsds500/src/csa.cpp","3rdparty/bsds500/src/kofn.cpp","modules/utils/include/litiv/utils/math.hpp"],[("counters","BSDS500Counters, MetricsAccumulator_<DatasetEval_BinaryClassifier,Dataset_BSDS500>::accumulate"),("scores","MetricsCalculator_<...,Dataset_BSDS500>, lv::interp1"),("matching","lv::bsds500 CSA solver"),("reports","DataReporter_<...,Dataset_BSDS500>")],observe="accumulated counters, scores, coloured masks and report files",hook=None)
p("P27","Segmentation and disparity evaluation reports what was accepted",
  "For every history of sessions, outputs, refused or failing pushes, resets and skipped batches, the counters of a batch are those of all outputs accepted since its creation or last reset: per pixel, true/false positives/negatives and shadow errors of binary segmentation (single image or image arrays), absolute disparity errors of stereo outputs, with pixels that are unknown, out of scope, outside the region of interest or without ground truth only counted as ignored. A refused output (wrong size, type, layout or stream) changes nothing, an evaluated one is not modified, and a ground truth that cannot be read counts as absent, never as other content. All scores follow from the counters by their definition for counters of any size, and are finite without any; groups and datasets average the scores of their processed batches and sum the counters of all, in whatever order and on whatever threads these ran; comparison and accumulation of counters are exact. Coloured masks show the category of each pixel or the size of its error, and report files state the rows, scores, output counts and speed of every batch, group and dataset that has outputs.",
  ["inputs","histories","fault_sequences","schedules"],"every content, output history, refusal, fault, reset and order or interleaving of batches",
  "The tests evaluate one constant output per dataset; refusals, faults, resets, merged batches and colours are not run.",
  ["modules/datasets/src/metrics.cpp","modules/datasets/src/eval.cpp","modules/datasets/include/litiv/datasets/metrics.hpp","modules/datasets/include/litiv/datasets/eval.hpp",DU],[("counters","lv::BinClassif, lv::StereoDispErrors, lv::IMetricsAccumulator_"),("scores","lv::BinClassifMetrics, lv::StereoDispErrorMetrics, lv::IMetricsCalculator_"),("evaluation","lv::DataEvaluatorWrapper_::processOutput/resetMetrics"),("reports","lv::DataReporter_, IDataReporter_::writeEvalReport")],observe="counters, scores, coloured masks and report files",hook=None)
p("P28","Display helpers show what they are given and route every input event once",
  "For every sequence of displays (one image, input/debug/output, any grid), albums, key waits, option changes, refused images, failing displays and windows closed by the user, a display helper shows exactly the given images, converted to bytes, scaled to equal tiles in their order, with their labels, the hints and the cursor of the latest mouse event (highlighted in the tile it belongs to); the picture never exceeds the maximum size, keeps its aspect ratio and is not scaled if it fits. Displayed images are never modified and images that cannot be shown are refused without showing anything. Each mouse event, whether delivered while waiting for a key or at any time by a window thread, reaches the callback set then exactly once, with its position, its position within the tile, and the sizes of a display that was shown. Waiting for a key blocks while paused and uses the given delay otherwise, space toggles the pause, albums follow their keys and wrap around, and neither deadlocks with the window thread. The window is closed and the debug file complete once the helper is gone, also when the window was already closed.",
  ["inputs","histories","schedules","fault_sequences"],"every image type, size, grid, event, key and interleaving with the window thread, and every failing display",
  "No test opens a window or delivers an event.",
  [OC,"modules/utils/include/litiv/utils/opencv.hpp"],[("display","lv::DisplayHelper::display, displayAlbumAndWaitKey, waitKey"),("events","lv::DisplayHelper::onMouseEventCallback, setMouseCallback, m_oEventMutex")],observe="images passed to the window system, callback data, keys and delays, open windows",hook=None)
p("P29","The change detection and edge applications equal a plain sequential evaluation",
  "For every dataset, option set (shown, saved, evaluated; one or several workers), key sequence and scheduling, a run of the change detection or edge detection application (apps/changedet, apps/edges) saves the outputs, writes the reports of batches, groups and dataset, and shows the images that a plain sequential loop over the batches gives: each batch processed from its first frame with a detector of its own and the random generator seeded again, every frame used once and in order, frames up to the 101st learned at the fast rate, pixels outside the region of interest greyed when shown. Precaching, other batches and other workers never influence a batch; a batch that is too short, is quit with a key, or whose inputs cannot be read ends early without affecting any other, its outputs up to there are kept, its processing is stopped and its window closed; the application returns 0 once all batches were handled and an error only if the dataset cannot be parsed.",
  ["inputs","histories","schedules","fault_sequences"],"every dataset content, key sequence, interleaving of workers and precaching threads, directory order and moment at which an input vanishes",
  "The applications are built but never run by the tests.",
  ["apps/changedet/src/main.cpp","apps/edges/src/main.cpp"],[("main loops","main, Analyze of both applications")],observe="output files, report files, displayed images, keys read and return codes",hook=None)
p("P90","Image descriptors and numeric helpers match their definitions",
  "Numeric kernels (descriptor lookups, distances, thinning, morphology, colour conversion, metrics formulas) compute their documented mathematical result for every input.",
  ["inputs"],"all inputs","Only sampled inputs are compared.",
  ["modules/features2d/src/LBSP.cpp","modules/utils/include/litiv/utils/math.hpp","modules/imgproc/src/imgproc.cpp"],[("numeric kernels","lv:: math/imgproc/features2d")])
p("P91","GPU pipelines match their CPU meaning",
  "GLSL shader pipelines (image processing, background subtraction, median blur) produce the frames that their CPU counterparts define.",
  ["inputs","histories"],"all frame sequences","Needs an OpenGL 4.4 context; no test exists.",
  ["modules/utils/src/opengl-imgproc.cpp","modules/imgproc/src/opengl.cpp"],[("GL pipelines","GLImageProcAlgo, GLBackgroundSubtractor")])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))

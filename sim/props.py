# Per-property configuration of the checks.
REAL=["libstdc++ threads/futures/streams on the simulated pthread layer"]
STUB=["kernel scheduler, clocks, futexes, rand(), file descriptors under /simfs (simulated in-process)","GUI windows (no display)"]
_Q,_T=30,1500
_C=["lv::WorkerPool, lv::Semaphore, lv::unlock_guard, lv::safe_print/ostream_guard/putf, lv::ProgressBarManager, lv::StopWatch (modules/utils)"]
_D=["lv::DataPrecacher and lv::DataWriter (modules/datasets/src/utils.cpp) with lv::unlock_guard, logging and assertion helpers (modules/utils)"]
_DS=["the data loader / archiving callback (scripted, checks how it is called)"]
_IO=["lv::read/lv::write matrix archives (modules/utils/src/opencv.cpp), lv::createDirIfNotExist, listings and createBinFileWithPrealloc (modules/utils/src/platform.cpp), the installed libstdc++ fstream and OpenCV FileStorage"]
_IOS=["the disk (in-memory file system with faults, crash and capacity)"]
_P=["the dataset framework (modules/datasets: data handlers, loaders, precacher, writer, archivers, counters, evaluators, metrics, reports) with CDnet, BSDS-like, segmentation, cosegmentation and stereo style datasets, lv::WorkerPool, archives and file listings (modules/utils), OpenCV image codecs"]
_PS=["the disk (in-memory file system with faults, crash and capacity)","the video decoder (scripted frames and failures)"]
PROPS={
"P01":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: random request histories (next, same, skip, back, random, past the end) with start/stop/restart, buffers of 0.5 to 40 packets, packets of one or mixed size, type and dimensionality, some larger than the buffer; each returned packet is compared byte for byte with the loader's definition and re-read through the checked heap after stop, restart and idle time."),
"P02":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: request/start/stop histories with loader exceptions (foreground and background), failing allocations and thread creation, followed by a fault-free recovery phase over the whole stream; each injected failure is tracked until exactly one call raises it."),
"P03":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: slow loaders, wall-clock jumps, spurious wake-ups and stalls with a simulated-time bound per call (loader delays and injected stalls deducted); idle readers that must find the packets fitting the buffer ready, after sequential reading, jumps and past-the-end requests."),
"P04":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: 1-3 producers, 1-3 writer threads, distinct and re-queued indices, recycled caller buffers, several sessions, stop racing with queuing, destruction while active; every hand-over is checked against the queue history."),
"P05":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: writer threads held at a gate so that the exact content of the queue is known before each queue, queue_check, drop, block and refusal; free-running producers with a monitor thread checking the bounds."),
"P06":dict(target="data",quick=_Q,thorough=_T,real=_D,stub=_DS,rule="Workloads: throwing callbacks, failing thread creation at start, failing allocations in queue, start and the writing threads, over several sessions; each failure must be raised by exactly the call that meets it or by the next stop, and all other packets written once."),
"P07":dict(target="sync",quick=_Q,thorough=_T,real=_C,rule="Workloads: pools of 1-4 workers, 1-3 producers, nested queuing, all-worker barriers, idle periods, queuing while destroying; each task start is checked against the queue history."),
"P08":dict(target="sync",quick=_Q,thorough=_T,real=_C,rule="Workloads: values, references, move-only results, exceptions, nested tasks, shared and abandoned futures; thread creation and allocation failures in constructor and queueTask."),
"P09":dict(target="sync",quick=_Q,thorough=_T,real=_C,rule="Workloads: mixed blocking, non-blocking and timed acquisitions against a counting reference model, wake-up accounting, wall-clock jumps, spurious wake-ups."),
"P10":dict(target="sync",quick=_Q,thorough=_T,real=_C,rule="Workloads: one to three locks of several kinds in any order on 2-4 threads, exceptions through the guard, partners that must get in."),
"P11":dict(target="sync",quick=_Q,thorough=_T,real=_C,stub=["std::cout/cerr/stdout sinks (recording stream buffer)"],rule="Workloads: 2-4 threads logging through all helpers with lengths around the internal buffer size, verbosity levels, a shared progress bar under wall-clock jumps; the recorded character stream is parsed against each thread's message list."),
"P12":dict(target="io",quick=_Q,thorough=_T,real=_IO,stub=_IOS,rule="Workloads: 1-3 threads archiving and reading matrices of any depth, 1-4 channels, 2-3 dimensions and submatrices in all formats, with open/write/flush/close failures, short and interrupted writes, every possible remaining disk capacity and wall-clock jumps; each acknowledged archive is read back and compared bit for bit, right away and at the end."),
"P13":dict(target="io",quick=_Q,thorough=_T,real=_IO,stub=_IOS,rule="Workloads: process crash at a random system call while (over)writing an archive, restart and read; archives cut at random positions; random and structured damage to header fields; disk errors, short and interrupted reads, with a checked heap and allocation bound."),
"P14":dict(target="img",quick=_Q,thorough=_T,real=["lv::medianBlur, binaryMedianBlur, binaryConsensus, computeImageAffinity, computeDescriptorAffinity, integral, binaryIntegral, calcHistCounts, calcMedianValue, computeTemporalAbsDiff, remap_offset, Gaussian mixtures, thinning, nonMaxSuppression (modules/imgproc, modules/utils) and the installed OpenCV"],stub=["OpenMP runtime (simulated teams, chunks and barriers)"],rule="Workloads: 18 operations on random images (8/16-bit, signed, float, views), kernels, masks, disparities and output states; 1-3 callers that overwrite and pass on the same buffers, on teams of 1-5 simulated threads; results compared bit for bit with the sequential run and with straightforward reference definitions; inputs checked unmodified; every access race- and bounds-checked."),
"P15":dict(target="feat",quick=_Q,thorough=_T,real=["LSS, ShapeContext, DASC, LBSP, MutualInfo (modules/features2d), ofdis optical flow (3rdparty/ofdis), and the installed OpenCV"],stub=["OpenMP runtime (simulated teams, chunks and barriers)"],rule="Workloads: random configurations of five descriptor/similarity extractors and of optical flow, 1-3 calls per instance on images of varying size with fresh, right-sized, wrong-sized, reused and sub-matrix outputs, 1-3 concurrent instances, teams of 1-5 simulated threads; input buffers overwritten with the next image; compared bit for bit with a fresh instance on a fresh thread with one OpenMP thread."),
"P16":dict(target="pipe",quick=_Q,thorough=_T,real=_P,stub=_PS,rule="Workloads: 1-2 groups of 1-2 batches of four dataset kinds (change detection, edges, image arrays, no evaluation), 1-4 sessions per batch with pushes of distinct and repeated packets, resets, observers asking for counts and times from other threads before, during and after each session, wall-clock jumps, spurious wake-ups; checked against a counting model."),
"P17":dict(target="pipe",quick=_Q,thorough=_T,real=_P,stub=_PS,rule="Workloads: multi-batch datasets of five kinds on a simulated disk (image sequences, videos, images with edges, image arrays, stereo), processed one after the other and then on a pool of 1-4 workers with precaching, packet writers, failing batches (algorithm, decoder, disk) and random enumeration order; every input, ground truth, saved file, count and report is compared."),
"P18":dict(target="pipe",quick=_Q,thorough=_T,real=_P,stub=_PS,rule="Workloads: histories of feature saves and loads (single and packed arrays), precaching, restarts with a fresh dataset object, open/write/close failures, full disks, process crash during a save; video frames requested in any order with failing decodes; each load is compared with what was saved."),
"P19":dict(target="io",quick=_Q,thorough=_T,real=_IO,stub=_IOS,rule="Workloads: 1-4 threads creating overlapping directory paths with mkdir/stat failures and files in the way; listings of random name sets under random enumeration order, alone, concurrently and while files are being added."),
"P20":dict(target="video",quick=_Q,thorough=_T,real=["LOBSTER, SuBSENSE, PAWCS, ViBe and PBAS background subtractors (modules/video), LBSP (modules/features2d), sampling helpers (modules/utils, modules/imgproc) and the installed OpenCV"],stub=["rand() (one seeded stream per simulated thread)"],rule="Workloads: scripts of initialisation (with and without ROI), frames, background and descriptor images, model refreshes, ROI changes and re-initialisation for random parameters, 1-4 channels and frame sizes, run alone on zeroed memory as the reference, then next to 0-2 other instances with other heap content and fresh, reused, wrong-sized and sub-matrix outputs, and from a fresh instance after re-initialisation; compared bit for bit; every access race- and bounds-checked."),
"P21":dict(target="io",quick=_Q,thorough=_T,real=_IO,stub=_IOS,rule="Workloads: preallocation of new and existing files of random sizes with open/seek/write/flush failures and limited disks, repeated on the same file."),
"P22":dict(target="vptz",quick=_Q,thorough=_T,real=["vptz::Camera, vptz::GTTranslator and the projection functions (modules/vptz) and the installed OpenCV"],stub=["OpenGL, GLU, GLFW and GLEW (a state machine per context that records matrices, texture and sphere of every read-back; window creation and GLEW can fail)","the video decoder (scripted frames, frame rates and failures, slow decoding)"],rule="Workloads: 1-3 cameras on videos (known, unknown and hidden frame counts and rates) and images in random interleaving: plays, moves by point and by angle, waits with and without sleep, frames, settings, refused calls, destruction and creation, foreign or no context made current in between, execution time, slow decoding and rendering, decoder/window/GLEW failures, wall-clock jumps; each wait, frame and angle is compared with a model in simulated time; projections compared with independent view geometry over random views."),
"P23":dict(target="vptz",quick=_Q,thorough=_T,real=["vptz::Evaluator, vptz::Camera, vptz::GTTranslator (modules/vptz), OpenCV's FileStorage and image codecs"],stub=["OpenGL, GLU, GLFW and GLEW (recording state machine)","the video decoder (scripted frames and failures)","the disk (in-memory file system)"],rule="Workloads: single tests and test sets of 1-3 sequences, set up 1-4 times in any order, with missing, truncated, non-continuous or contradicting ground truth, missing videos, decoder and window failures, abandoned setups, destruction while testing; frames requested by point and by angle, results near, far, tiny and empty; the report is read back and compared with an independent evaluation."),
"P24":dict(target="edge",quick=_Q,thorough=_T,real=["EdgeDetectorLBSP, EdgeDetectorCanny, lv::ImageWarper/imwarp (modules/imgproc), LBSP (modules/features2d) and the installed OpenCV"],stub=["thread scheduling, heap content and allocation failures (simulator)"],rule="Workloads: one instance over 2-8 calls of changing sizes, types, thresholds and kinds (single threshold, sweep, warps), on heaps filled with different garbage, with refused inputs and failing allocations in between; several instances on 2-4 threads; tiny, flat, noisy and large images; masks compared with an independent definition, with fresh instances and with the accumulation of single thresholds; warps with control points, rigid and similarity motions."),
"P25":dict(target="dset",quick=_Q,thorough=_T,real=["dataset parsers (modules/datasets/include/litiv/datasets/impl), loaders and precachers (modules/datasets), utils platform/opencv helpers, OpenCV's codecs"],stub=["the disk and its directory order (in-memory file system)","the video decoder (scripted, for PETS2001)","thread scheduling and clocks (simulator)"],rule="Workloads: generated datasets in the layout of each benchmark (1-3 sequences or groups, odd sizes, missing or partial ground truth, skip flags, calibration files), random directory order, scales 0.25-2, 3/4 channels, precached or not, with damaged/missing/extra files and failing opens and reads; every packet, ROI, mask, count and info compared with the generated content."),
"P26":dict(target="bsds",quick=_Q,thorough=_T,real=["BSDS500 edge metrics, evaluators, accumulators, reports and coloured masks (modules/datasets/src/impl/BSDS500.cpp, eval, metrics), the CSA matcher (3rdparty/bsds500), lv::interp1 and lv::thinning, OpenCV's codecs"],stub=["the disk (in-memory file system)","thread scheduling, clocks, heap content and rand() (simulator)"],rule="Workloads: outputs and 1-3 stacked ground truths of odd sizes, with few, many, no and border edges, values at and next to the thresholds, threshold counts 1-14, 99 and 255, pushed to accumulators alone, in several batches and from several threads; accumulators merged, compared and reset; per threshold counters compared with an independent matching (exact up to 7 candidates, bounded beyond), scores recomputed from the counters, colours from the masks, report files read back."),
"P27":dict(target="eval",quick=_Q,thorough=_T,real=["evaluation interfaces, counters, scores, accumulators, reports and coloured masks of binary classification and disparity outputs (modules/datasets/src/{eval,metrics,utils,datasets}.cpp and headers), the CDnet parser, the data precacher, OpenCV's codecs"],stub=["the disk (in-memory file system)","thread scheduling, clocks, heap content, rand() and allocation failures (simulator)"],rule="Workloads: outputs, ground truths and regions of interest of odd sizes, of all categories and depths, continuous or not, pushed to counters alone and from several threads; histories of sessions, repeated, refused and failing pushes, resets and skipped batches over whole datasets of single image, image pair and disparity outputs with batches evaluated one after another or in parallel; counters, scores, averages and reduced scores compared with independent tallies, colours with the categories, report files read back."),
"P28":dict(target="disp",quick=_Q,thorough=_T,real=["display helpers (modules/utils/src/opencv.cpp and header), OpenCV's image conversion, drawing and file storage"],stub=["the window system (named windows, keys, mouse events inside waitKey or from a window thread holding the window lock)","the disk (in-memory file system)","thread scheduling, clocks and heap content (simulator)"],rule="Workloads: histories of displays of one, three or a grid of images of all types and sizes, albums, waits, callbacks set and removed, options toggled, with mouse events inside and outside the window delivered while waiting or at any time from a window thread, displays which fail, windows closed by the user and refused images; what is shown compared with an independent drawing, events with what the callback received."),
"P29":dict(target="apps",quick=_Q,thorough=_T,real=["the change detection and edge detection applications (apps/changedet, apps/edges) with several sets of their compile-time options, over the dataset parsers, precacher, processing sessions, evaluation, worker pool, display helper, LOBSTER and LBSP code of the library"],stub=["the window system (named windows, scripted keys)","the disk (in-memory file system)","thread scheduling, clocks, heap content and rand() (simulator)"],rule="Workloads: whole runs of an application over generated datasets (CDnet 2014, BSDS500), shown, saved and evaluated, with one or three workers, scripted key presses (pause, quit), directory orders, and inputs of one batch vanishing while it runs; saved outputs, reports, displayed images and keys read compared with a plain sequential evaluation."),
}

target("sync",["h_sync.cpp"],UTILS,CV,["stubs.cpp","cv_wrap.cpp"])
target("data",["h_data.cpp"],UTILS+["modules/datasets/src/utils.cpp"],CV,["stubs.cpp","cv_wrap.cpp"])
target("io",["h_io.cpp"],UTILS,CV,["stubs.cpp","cv_wrap.cpp"])
target("img",["h_img.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"],CV,["stubs.cpp","cv_wrap.cpp"])
target("feat",["h_feat.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"]+["modules/features2d/src/%s.cpp"%x for x in ("LSS","SC","LBSP","MI")]+OFD,CV+["-lopencv_features2d"],["stubs.cpp","cv_wrap.cpp","repo:modules/features2d/src/DASC.cpp"])
target("pipe",["h_pipe.cpp","stub_video.cpp"],UTILS+["modules/datasets/src/%s.cpp"%x for x in ("utils","eval","metrics","datasets")],CV,["stubs.cpp","cv_wrap.cpp"])
target("video",["h_video.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"]+["modules/features2d/src/LBSP.cpp"]+["modules/video/src/%s.cpp"%x for x in ("BackgroundSubtractionUtils","BackgroundSubtractorLBSP","BackgroundSubtractorLOBSTER","BackgroundSubtractorSuBSENSE","BackgroundSubtractorPAWCS","BackgroundSubtractorViBe","BackgroundSubtractorPBAS")],CV+["-lopencv_features2d","-lopencv_video"],["stubs.cpp","cv_wrap.cpp"])
target("vptz",["h_vptz.cpp"],["modules/vptz/src/virtualptz.cpp"],CV,["stub_gl.cpp","cv_wrap.cpp"])
target("edge",["h_edge.cpp"],UTILS+["modules/imgproc/src/%s.cpp"%x for x in ("imgproc","EdgeDetectionUtils","EdgeDetectorLBSP","EdgeDetectorCanny","imwarp")]+["modules/features2d/src/LBSP.cpp"],CV+["-lopencv_features2d"],["stubs.cpp","cv_wrap.cpp"])
target("dset",["h_dset.cpp","stub_video.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"]+["modules/datasets/src/%s.cpp"%x for x in ("utils","eval","metrics","datasets")]+["modules/datasets/src/impl/BSDS500.cpp"],CV+["-lopencv_calib3d"],["stubs.cpp","cv_wrap.cpp"])
target("bsds",["h_bsds.cpp","stub_video.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"]+["modules/datasets/src/%s.cpp"%x for x in ("utils","eval","metrics","datasets")]+["modules/datasets/src/impl/BSDS500.cpp","3rdparty/bsds500/src/csa.cpp","3rdparty/bsds500/src/kofn.cpp"],CV+["-lopencv_calib3d"],["stubs.cpp","cv_wrap.cpp"])
target("eval",["h_eval.cpp","stub_video.cpp"],UTILS+["modules/imgproc/src/imgproc.cpp"]+["modules/datasets/src/%s.cpp"%x for x in ("utils","eval","metrics","datasets")]+["modules/datasets/src/impl/BSDS500.cpp"],CV+["-lopencv_calib3d"],["stubs.cpp","cv_wrap.cpp"])
target("disp",["h_disp.cpp"],UTILS,CV,["stub_gui.cpp","cv_wrap.cpp"])
_CD="apps/changedet/src/main.cpp"; _ED="apps/edges/src/main.cpp"
APPS.update(cd_show=(_CD,{}),cd_eval=(_CD,dict(WRITE_IMG_OUTPUT="1",EVALUATE_OUTPUT="1",DISPLAY_OUTPUT="0")),cd_many=(_CD,dict(WRITE_IMG_OUTPUT="1",EVALUATE_OUTPUT="1",DATASET_WORKTHREADS="3")),
    ed_show=(_ED,dict(DATASET_SCALE_FACTOR="0.05")),ed_eval=(_ED,dict(WRITE_IMG_OUTPUT="1",EVALUATE_OUTPUT="1",DISPLAY_OUTPUT="0",DATASET_SCALE_FACTOR="0.05")),ed_many=(_ED,dict(WRITE_IMG_OUTPUT="1",DATASET_WORKTHREADS="3",DATASET_SCALE_FACTOR="0.05",FULL_THRESH_ANALYSIS="0")))
target("apps",["h_apps.cpp","app_cd.cpp","app_ed.cpp","stub_video.cpp"],UTILS+["modules/imgproc/src/%s.cpp"%x for x in ("imgproc","EdgeDetectionUtils","EdgeDetectorLBSP","EdgeDetectorCanny")]+["modules/features2d/src/LBSP.cpp"]+["modules/datasets/src/%s.cpp"%x for x in ("utils","eval","metrics","datasets")]+["modules/datasets/src/impl/BSDS500.cpp","3rdparty/bsds500/src/csa.cpp","3rdparty/bsds500/src/kofn.cpp"]+["modules/video/src/%s.cpp"%x for x in ("BackgroundSubtractionUtils","BackgroundSubtractorLBSP","BackgroundSubtractorLOBSTER")],CV+["-lopencv_calib3d","-lopencv_features2d","-lopencv_video"],["stub_gui.cpp","cv_wrap.cpp"],["cd_show","cd_eval","cd_many","ed_show","ed_eval","ed_many"])

--------------------------- MODULE DatasetsTrace ---------------------------
EXTENDS Judge, Datasets
AcceptRecord(r) ==
  CASE r.op = "octave" -> OctaveOK(r.in, r.out)
    [] r.op = "table" -> TableOK(r.in, r.out)
    [] r.op = "xy" -> XYOK(r.in, r.out)
    [] r.op = "regression" -> RegressionOK(r.in, r.out)
    [] r.op = "blobs" -> BlobsOK(r.in, r.out)
=============================================================================

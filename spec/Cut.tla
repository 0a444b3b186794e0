--------------------------------- MODULE Cut --------------------------------
(* Pixels of tiles cut from an image.  An image is a pattern                  *)
(*   Pix(g, b, x, y) = (a x + b' y + c b + d) mod m                           *)
(* of indices into a palette of pixel values sorted by value.  A request is a *)
(* window <<x, y, w, h>> and an output size (<<>> keeps the size).            *)
EXTENDS Arith, FiniteSets
Pix(g, b, x, y) == (g.a * x + g.b * y + g.c * b + g.d) % g.m
Inside(g, win) == win[1] >= 0 /\ win[2] >= 0 /\ win[3] > 0 /\ win[4] > 0 /\ win[1] + win[3] <= g.w /\ win[2] + win[4] <= g.h
Covers(g, x, y) == x >= 0 /\ y >= 0 /\ x < g.w /\ y < g.h
OutSize(win, out) == IF out = <<>> THEN <<win[3], win[4]>> ELSE out
Scales(win, out) == out # <<>> /\ out # <<win[3], win[4]>>
(* What a lossless encoding of a format can hold                              *)
NitfTypes == {"Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64", "CFloat32"}
Holds(fmt, type, nb) == CASE fmt = "NITF" -> type \in NitfTypes
                          [] fmt = "GTiff" -> TRUE
                          [] fmt = "PNG" -> type \in {"Byte", "UInt16"} /\ nb <= 4
                          [] OTHER -> FALSE
\* the compression in the tile: JPEG 2000 is the default of NITF tiles and is not available for all pixel types, LZW is that of GeoTIFF tiles
Encodings(fmt, comp, type) ==
    CASE fmt = "NITF" /\ comp = "NONE" -> {"NC"}
      [] fmt = "NITF" /\ comp = "JPEG" -> {"C3"}
      [] fmt = "NITF" -> IF type \in {"Byte", "UInt16", "Int16"} THEN {"C8"} ELSE {"C8", "NC"}
      [] fmt = "GTiff" -> (CASE comp = "NONE" -> {"none"} [] comp = "JPEG" -> {"JPEG", "YCbCr JPEG"} [] OTHER -> {"LZW"})
      [] OTHER -> {""}
\* the pixel of the image an output pixel i of n shows, when w pixels from x0 on are resampled: within one source or
\* output pixel of its centre; images with overviews may be resampled from their pixels, ov source pixels wide (else 0)
Resampled(v, i, n, x0, w, ov) == /\ v > x0 - 1 - ov /\ v < x0 + w + ov
                                 /\ Abs(2 * n * (v - x0) - ((2 * i + 1) * w - n)) <= 2 * Max2(n, w) + 2 * n * ov
\* intersection of two rectangles (empty ones have a zero size)
Meet(r, s) == LET x == Max2(r[1], s[1])
                  y == Max2(r[2], s[2])
                  x2 == Min2(r[1] + r[3], s[1] + s[3])
                  y2 == Min2(r[2] + r[4], s[2] + s[4])
              IN IF x2 <= x \/ y2 <= y THEN <<0, 0, 0, 0>> ELSE <<x, y, x2 - x, y2 - y>>
=============================================================================

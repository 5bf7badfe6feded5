import exchange as X
import aggregate as A
import scoring as S
import output as O
import graph as G
import routing as R
import questions as Q
import edges as ED
import transport as TR
import input as IN
import stats as ST
import embed as EM
import pca as PC
import rotate as RO
import correct as CO
import start as SA
import kde as KD
import deliver as DE
import params as PA
import prepare as PP
import explain as EX
import geometry as GE

REG = {
    "P01": (X.p01, "typestate/effect analysis of the buffering exchange protocols over the coordinator's message handlers (MIR path conditions as BDDs)"),
    "P02": (X.p02, "path-condition analysis of phase completion"),
    "P03": (X.p03, "fan-out completeness and send accounting over the exchange rounds"),
    "P04": (A.p04, "transfer-function summary of keyed map updates (absent/present case) in the merge handlers"),
    "P05": (S.p05, "value-flow analysis of the score windows and of the overlap exchange (gated value numbering, index algebra)"),
    "P06": (S.p06, "value-flow analysis of instruction partitioning and ordered reassembly"),
    "P07": (O.p07, "value-flow analysis of score joining, normalisation and output"),
    "P09": (R.p09, "value-flow analysis of ownership and routing of transitions, intersections and nodes"),
    "P10": (R.p10, "path-condition analysis of step validity; tabulated index functions of crossed segments; value flow of intersection tasks"),
    "P11": (Q.p11, "value-flow analysis of questions and answers about nodes of other owners; the question set tabulated against consecutive crossings over a finite grid"),
    "P12": (ED.p12, "value-flow analysis of the edge exchange; owner and range functions tabulated over a finite grid"),
    "P13": (ED.p13, "case-wise transfer-function analysis of the edge orderer and value-flow analysis of the chain of edges"),
    "P08": (G.p08, "dependence analysis of equality, hash and conversion functions; keyed-count summaries"),
    "P14": (TR.p14, "typed call-site analysis of remote sends, actor ids and reply addresses; field-completeness analysis of derived serialisation"),
    "P15": (IN.p15, "case-wise transfer functions of the reading loop, tabulated over a finite grid of reachable states; value-flow analysis of rows, columns and early partitions"),
    "P16": (ST.p16, "value-flow analysis of the statistics; combination formulas tabulated over a rational grid"),
    "P17": (EM.p17, "array dataflow: per-cell definitions of phase space and reference over small shapes, loop-carried windows by an inductive invariant"),
    "P18": (PC.p18, "value-flow analysis of factors and means; reduction tree from tabulated transfer functions; per-cell definitions of the combination formulas"),
    "P19": (RO.p19, "array dataflow: per-cell definitions of projection, rotation matrix and points over small shapes; path-condition analysis of column order and early matrices"),
    "P20": (CO.p20, "path-condition analysis of the decision; value flow of counts, mirrored points and state left by the first attempt"),
    "P21": (SA.p21, "path-condition analysis of membership events; value flow of the member list and of the ids read off it; entry points tabulated over the number of nodes"),
    "P22": (KD.p22, "value-flow analysis of the density estimate: tasks and cells tabulated over small shapes, sums and counts by transfer functions, labels by the keyed map"),
    "P23": (DE.p23, "path-condition and value-flow analysis of result delivery; call-graph reachability of everything that ends an actor, the system or the process"),
    "P24": (PA.p24, "value-flow analysis of the generated command-line parser and of the Python binding's MIR; dependence analysis of the Python wrapper's syntax tree"),
    "P25": (EX.p25, "value-flow analysis of contributions: keyed-count summaries, per-cell definitions of the uniqueness matrix and the averages over small shapes; order and completeness of the written rows"),
    "P26": (PP.p26, "path-condition analysis of the start of the preparation; distribution of columns as an extracted transition function, tabulated over small numbers of columns and threads"),
    "P27": (GE.p27, "value-flow extraction of the crossing formulas (plane, line, common point, distances), compared with the required ones as formulas over small dimensions"),
}

// generated by tools/gen_shapes.py
use crate::nets::*;
use dess::prelude::*;

fn n0(s: &mut Net) { connect_states!(s, (a, b, q0)); update_derivs!(s, (a, b, q0)); }
fn n1(s: &mut Net) { connect_states!(s, (a, c, q0)); update_derivs!(s, (a, c, q0)); }
fn n2(s: &mut Net) { connect_states!(s, (a, r, q0)); update_derivs!(s, (a, r, q0)); }
fn n3(s: &mut Net) { connect_states!(s, (b, a, q0)); update_derivs!(s, (b, a, q0)); }
fn n4(s: &mut Net) { connect_states!(s, (b, c, q0)); update_derivs!(s, (b, c, q0)); }
fn n5(s: &mut Net) { connect_states!(s, (b, r, q0)); update_derivs!(s, (b, r, q0)); }
fn n6(s: &mut Net) { connect_states!(s, (c, a, q0)); update_derivs!(s, (c, a, q0)); }
fn n7(s: &mut Net) { connect_states!(s, (c, b, q0)); update_derivs!(s, (c, b, q0)); }
fn n8(s: &mut Net) { connect_states!(s, (c, r, q0)); update_derivs!(s, (c, r, q0)); }
fn n9(s: &mut Net) { connect_states!(s, (r, a, q0)); update_derivs!(s, (r, a, q0)); }
fn n10(s: &mut Net) { connect_states!(s, (r, b, q0)); update_derivs!(s, (r, b, q0)); }
fn n11(s: &mut Net) { connect_states!(s, (r, c, q0)); update_derivs!(s, (r, c, q0)); }
fn n12(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1)); update_derivs!(s, (a, b, q0), (a, b, q1)); }
fn n13(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1)); update_derivs!(s, (a, b, q0), (a, c, q1)); }
fn n14(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1)); update_derivs!(s, (a, b, q0), (a, r, q1)); }
fn n15(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1)); update_derivs!(s, (a, b, q0), (b, a, q1)); }
fn n16(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1)); update_derivs!(s, (a, b, q0), (b, c, q1)); }
fn n17(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1)); update_derivs!(s, (a, b, q0), (b, r, q1)); }
fn n18(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1)); update_derivs!(s, (a, b, q0), (c, a, q1)); }
fn n19(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1)); update_derivs!(s, (a, b, q0), (c, b, q1)); }
fn n20(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1)); update_derivs!(s, (a, b, q0), (c, r, q1)); }
fn n21(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1)); update_derivs!(s, (a, b, q0), (r, a, q1)); }
fn n22(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1)); update_derivs!(s, (a, b, q0), (r, b, q1)); }
fn n23(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1)); update_derivs!(s, (a, b, q0), (r, c, q1)); }
fn n24(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1)); update_derivs!(s, (a, c, q0), (a, b, q1)); }
fn n25(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1)); update_derivs!(s, (a, c, q0), (a, c, q1)); }
fn n26(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1)); update_derivs!(s, (a, c, q0), (a, r, q1)); }
fn n27(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1)); update_derivs!(s, (a, c, q0), (b, a, q1)); }
fn n28(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1)); update_derivs!(s, (a, c, q0), (b, c, q1)); }
fn n29(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1)); update_derivs!(s, (a, c, q0), (b, r, q1)); }
fn n30(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1)); update_derivs!(s, (a, c, q0), (c, a, q1)); }
fn n31(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1)); update_derivs!(s, (a, c, q0), (c, b, q1)); }
fn n32(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1)); update_derivs!(s, (a, c, q0), (c, r, q1)); }
fn n33(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1)); update_derivs!(s, (a, c, q0), (r, a, q1)); }
fn n34(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1)); update_derivs!(s, (a, c, q0), (r, b, q1)); }
fn n35(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1)); update_derivs!(s, (a, c, q0), (r, c, q1)); }
fn n36(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1)); update_derivs!(s, (a, r, q0), (a, b, q1)); }
fn n37(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1)); update_derivs!(s, (a, r, q0), (a, c, q1)); }
fn n38(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1)); update_derivs!(s, (a, r, q0), (a, r, q1)); }
fn n39(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1)); update_derivs!(s, (a, r, q0), (b, a, q1)); }
fn n40(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1)); update_derivs!(s, (a, r, q0), (b, c, q1)); }
fn n41(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1)); update_derivs!(s, (a, r, q0), (b, r, q1)); }
fn n42(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1)); update_derivs!(s, (a, r, q0), (c, a, q1)); }
fn n43(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1)); update_derivs!(s, (a, r, q0), (c, b, q1)); }
fn n44(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1)); update_derivs!(s, (a, r, q0), (c, r, q1)); }
fn n45(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1)); update_derivs!(s, (a, r, q0), (r, a, q1)); }
fn n46(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1)); update_derivs!(s, (a, r, q0), (r, b, q1)); }
fn n47(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1)); update_derivs!(s, (a, r, q0), (r, c, q1)); }
fn n48(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1)); update_derivs!(s, (b, a, q0), (a, b, q1)); }
fn n49(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1)); update_derivs!(s, (b, a, q0), (a, c, q1)); }
fn n50(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1)); update_derivs!(s, (b, a, q0), (a, r, q1)); }
fn n51(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1)); update_derivs!(s, (b, a, q0), (b, a, q1)); }
fn n52(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1)); update_derivs!(s, (b, a, q0), (b, c, q1)); }
fn n53(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1)); update_derivs!(s, (b, a, q0), (b, r, q1)); }
fn n54(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1)); update_derivs!(s, (b, a, q0), (c, a, q1)); }
fn n55(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1)); update_derivs!(s, (b, a, q0), (c, b, q1)); }
fn n56(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1)); update_derivs!(s, (b, a, q0), (c, r, q1)); }
fn n57(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1)); update_derivs!(s, (b, a, q0), (r, a, q1)); }
fn n58(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1)); update_derivs!(s, (b, a, q0), (r, b, q1)); }
fn n59(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1)); update_derivs!(s, (b, a, q0), (r, c, q1)); }
fn n60(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1)); update_derivs!(s, (b, c, q0), (a, b, q1)); }
fn n61(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1)); update_derivs!(s, (b, c, q0), (a, c, q1)); }
fn n62(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1)); update_derivs!(s, (b, c, q0), (a, r, q1)); }
fn n63(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1)); update_derivs!(s, (b, c, q0), (b, a, q1)); }
fn n64(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1)); update_derivs!(s, (b, c, q0), (b, c, q1)); }
fn n65(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1)); update_derivs!(s, (b, c, q0), (b, r, q1)); }
fn n66(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1)); update_derivs!(s, (b, c, q0), (c, a, q1)); }
fn n67(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1)); update_derivs!(s, (b, c, q0), (c, b, q1)); }
fn n68(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1)); update_derivs!(s, (b, c, q0), (c, r, q1)); }
fn n69(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1)); update_derivs!(s, (b, c, q0), (r, a, q1)); }
fn n70(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1)); update_derivs!(s, (b, c, q0), (r, b, q1)); }
fn n71(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1)); update_derivs!(s, (b, c, q0), (r, c, q1)); }
fn n72(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1)); update_derivs!(s, (b, r, q0), (a, b, q1)); }
fn n73(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1)); update_derivs!(s, (b, r, q0), (a, c, q1)); }
fn n74(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1)); update_derivs!(s, (b, r, q0), (a, r, q1)); }
fn n75(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1)); update_derivs!(s, (b, r, q0), (b, a, q1)); }
fn n76(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1)); update_derivs!(s, (b, r, q0), (b, c, q1)); }
fn n77(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1)); update_derivs!(s, (b, r, q0), (b, r, q1)); }
fn n78(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1)); update_derivs!(s, (b, r, q0), (c, a, q1)); }
fn n79(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1)); update_derivs!(s, (b, r, q0), (c, b, q1)); }
fn n80(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1)); update_derivs!(s, (b, r, q0), (c, r, q1)); }
fn n81(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1)); update_derivs!(s, (b, r, q0), (r, a, q1)); }
fn n82(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1)); update_derivs!(s, (b, r, q0), (r, b, q1)); }
fn n83(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1)); update_derivs!(s, (b, r, q0), (r, c, q1)); }
fn n84(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1)); update_derivs!(s, (c, a, q0), (a, b, q1)); }
fn n85(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1)); update_derivs!(s, (c, a, q0), (a, c, q1)); }
fn n86(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1)); update_derivs!(s, (c, a, q0), (a, r, q1)); }
fn n87(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1)); update_derivs!(s, (c, a, q0), (b, a, q1)); }
fn n88(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1)); update_derivs!(s, (c, a, q0), (b, c, q1)); }
fn n89(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1)); update_derivs!(s, (c, a, q0), (b, r, q1)); }
fn n90(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1)); update_derivs!(s, (c, a, q0), (c, a, q1)); }
fn n91(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1)); update_derivs!(s, (c, a, q0), (c, b, q1)); }
fn n92(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1)); update_derivs!(s, (c, a, q0), (c, r, q1)); }
fn n93(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1)); update_derivs!(s, (c, a, q0), (r, a, q1)); }
fn n94(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1)); update_derivs!(s, (c, a, q0), (r, b, q1)); }
fn n95(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1)); update_derivs!(s, (c, a, q0), (r, c, q1)); }
fn n96(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1)); update_derivs!(s, (c, b, q0), (a, b, q1)); }
fn n97(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1)); update_derivs!(s, (c, b, q0), (a, c, q1)); }
fn n98(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1)); update_derivs!(s, (c, b, q0), (a, r, q1)); }
fn n99(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1)); update_derivs!(s, (c, b, q0), (b, a, q1)); }
fn n100(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1)); update_derivs!(s, (c, b, q0), (b, c, q1)); }
fn n101(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1)); update_derivs!(s, (c, b, q0), (b, r, q1)); }
fn n102(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1)); update_derivs!(s, (c, b, q0), (c, a, q1)); }
fn n103(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1)); update_derivs!(s, (c, b, q0), (c, b, q1)); }
fn n104(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1)); update_derivs!(s, (c, b, q0), (c, r, q1)); }
fn n105(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1)); update_derivs!(s, (c, b, q0), (r, a, q1)); }
fn n106(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1)); update_derivs!(s, (c, b, q0), (r, b, q1)); }
fn n107(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1)); update_derivs!(s, (c, b, q0), (r, c, q1)); }
fn n108(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1)); update_derivs!(s, (c, r, q0), (a, b, q1)); }
fn n109(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1)); update_derivs!(s, (c, r, q0), (a, c, q1)); }
fn n110(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1)); update_derivs!(s, (c, r, q0), (a, r, q1)); }
fn n111(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1)); update_derivs!(s, (c, r, q0), (b, a, q1)); }
fn n112(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1)); update_derivs!(s, (c, r, q0), (b, c, q1)); }
fn n113(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1)); update_derivs!(s, (c, r, q0), (b, r, q1)); }
fn n114(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1)); update_derivs!(s, (c, r, q0), (c, a, q1)); }
fn n115(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1)); update_derivs!(s, (c, r, q0), (c, b, q1)); }
fn n116(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1)); update_derivs!(s, (c, r, q0), (c, r, q1)); }
fn n117(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1)); update_derivs!(s, (c, r, q0), (r, a, q1)); }
fn n118(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1)); update_derivs!(s, (c, r, q0), (r, b, q1)); }
fn n119(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1)); update_derivs!(s, (c, r, q0), (r, c, q1)); }
fn n120(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1)); update_derivs!(s, (r, a, q0), (a, b, q1)); }
fn n121(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1)); update_derivs!(s, (r, a, q0), (a, c, q1)); }
fn n122(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1)); update_derivs!(s, (r, a, q0), (a, r, q1)); }
fn n123(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1)); update_derivs!(s, (r, a, q0), (b, a, q1)); }
fn n124(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1)); update_derivs!(s, (r, a, q0), (b, c, q1)); }
fn n125(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1)); update_derivs!(s, (r, a, q0), (b, r, q1)); }
fn n126(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1)); update_derivs!(s, (r, a, q0), (c, a, q1)); }
fn n127(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1)); update_derivs!(s, (r, a, q0), (c, b, q1)); }
fn n128(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1)); update_derivs!(s, (r, a, q0), (c, r, q1)); }
fn n129(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1)); update_derivs!(s, (r, a, q0), (r, a, q1)); }
fn n130(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1)); update_derivs!(s, (r, a, q0), (r, b, q1)); }
fn n131(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1)); update_derivs!(s, (r, a, q0), (r, c, q1)); }
fn n132(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1)); update_derivs!(s, (r, b, q0), (a, b, q1)); }
fn n133(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1)); update_derivs!(s, (r, b, q0), (a, c, q1)); }
fn n134(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1)); update_derivs!(s, (r, b, q0), (a, r, q1)); }
fn n135(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1)); update_derivs!(s, (r, b, q0), (b, a, q1)); }
fn n136(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1)); update_derivs!(s, (r, b, q0), (b, c, q1)); }
fn n137(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1)); update_derivs!(s, (r, b, q0), (b, r, q1)); }
fn n138(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1)); update_derivs!(s, (r, b, q0), (c, a, q1)); }
fn n139(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1)); update_derivs!(s, (r, b, q0), (c, b, q1)); }
fn n140(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1)); update_derivs!(s, (r, b, q0), (c, r, q1)); }
fn n141(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1)); update_derivs!(s, (r, b, q0), (r, a, q1)); }
fn n142(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1)); update_derivs!(s, (r, b, q0), (r, b, q1)); }
fn n143(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1)); update_derivs!(s, (r, b, q0), (r, c, q1)); }
fn n144(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1)); update_derivs!(s, (r, c, q0), (a, b, q1)); }
fn n145(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1)); update_derivs!(s, (r, c, q0), (a, c, q1)); }
fn n146(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1)); update_derivs!(s, (r, c, q0), (a, r, q1)); }
fn n147(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1)); update_derivs!(s, (r, c, q0), (b, a, q1)); }
fn n148(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1)); update_derivs!(s, (r, c, q0), (b, c, q1)); }
fn n149(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1)); update_derivs!(s, (r, c, q0), (b, r, q1)); }
fn n150(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1)); update_derivs!(s, (r, c, q0), (c, a, q1)); }
fn n151(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1)); update_derivs!(s, (r, c, q0), (c, b, q1)); }
fn n152(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1)); update_derivs!(s, (r, c, q0), (c, r, q1)); }
fn n153(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1)); update_derivs!(s, (r, c, q0), (r, a, q1)); }
fn n154(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1)); update_derivs!(s, (r, c, q0), (r, b, q1)); }
fn n155(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1)); update_derivs!(s, (r, c, q0), (r, c, q1)); }
fn n156(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (a, b, q2)); }
fn n157(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (a, c, q2)); }
fn n158(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (a, r, q2)); }
fn n159(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (b, a, q2)); }
fn n160(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (b, c, q2)); }
fn n161(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (b, r, q2)); }
fn n162(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (c, a, q2)); }
fn n163(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (c, b, q2)); }
fn n164(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (c, r, q2)); }
fn n165(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (r, a, q2)); }
fn n166(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (r, b, q2)); }
fn n167(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (a, b, q1), (r, c, q2)); }
fn n168(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (a, b, q2)); }
fn n169(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (a, c, q2)); }
fn n170(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (a, r, q2)); }
fn n171(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (b, a, q2)); }
fn n172(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (b, c, q2)); }
fn n173(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (b, r, q2)); }
fn n174(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (c, a, q2)); }
fn n175(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (c, b, q2)); }
fn n176(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (c, r, q2)); }
fn n177(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (r, a, q2)); }
fn n178(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (r, b, q2)); }
fn n179(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (a, c, q1), (r, c, q2)); }
fn n180(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (a, b, q2)); }
fn n181(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (a, c, q2)); }
fn n182(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (a, r, q2)); }
fn n183(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (b, a, q2)); }
fn n184(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (b, c, q2)); }
fn n185(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (b, r, q2)); }
fn n186(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (c, a, q2)); }
fn n187(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (c, b, q2)); }
fn n188(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (c, r, q2)); }
fn n189(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (r, a, q2)); }
fn n190(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (r, b, q2)); }
fn n191(s: &mut Net) { connect_states!(s, (a, b, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (a, r, q1), (r, c, q2)); }
fn n192(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (a, b, q2)); }
fn n193(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (a, c, q2)); }
fn n194(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (a, r, q2)); }
fn n195(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (b, a, q2)); }
fn n196(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (b, c, q2)); }
fn n197(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (b, r, q2)); }
fn n198(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (c, a, q2)); }
fn n199(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (c, b, q2)); }
fn n200(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (c, r, q2)); }
fn n201(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (r, a, q2)); }
fn n202(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (r, b, q2)); }
fn n203(s: &mut Net) { connect_states!(s, (a, b, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (b, a, q1), (r, c, q2)); }
fn n204(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (a, b, q2)); }
fn n205(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (a, c, q2)); }
fn n206(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (a, r, q2)); }
fn n207(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (b, a, q2)); }
fn n208(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (b, c, q2)); }
fn n209(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (b, r, q2)); }
fn n210(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (c, a, q2)); }
fn n211(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (c, b, q2)); }
fn n212(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (c, r, q2)); }
fn n213(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (r, a, q2)); }
fn n214(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (r, b, q2)); }
fn n215(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (b, c, q1), (r, c, q2)); }
fn n216(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (a, b, q2)); }
fn n217(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (a, c, q2)); }
fn n218(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (a, r, q2)); }
fn n219(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (b, a, q2)); }
fn n220(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (b, c, q2)); }
fn n221(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (b, r, q2)); }
fn n222(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (c, a, q2)); }
fn n223(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (c, b, q2)); }
fn n224(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (c, r, q2)); }
fn n225(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (r, a, q2)); }
fn n226(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (r, b, q2)); }
fn n227(s: &mut Net) { connect_states!(s, (a, b, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (b, r, q1), (r, c, q2)); }
fn n228(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (a, b, q2)); }
fn n229(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (a, c, q2)); }
fn n230(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (a, r, q2)); }
fn n231(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (b, a, q2)); }
fn n232(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (b, c, q2)); }
fn n233(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (b, r, q2)); }
fn n234(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (c, a, q2)); }
fn n235(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (c, b, q2)); }
fn n236(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (c, r, q2)); }
fn n237(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (r, a, q2)); }
fn n238(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (r, b, q2)); }
fn n239(s: &mut Net) { connect_states!(s, (a, b, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (c, a, q1), (r, c, q2)); }
fn n240(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (a, b, q2)); }
fn n241(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (a, c, q2)); }
fn n242(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (a, r, q2)); }
fn n243(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (b, a, q2)); }
fn n244(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (b, c, q2)); }
fn n245(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (b, r, q2)); }
fn n246(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (c, a, q2)); }
fn n247(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (c, b, q2)); }
fn n248(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (c, r, q2)); }
fn n249(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (r, a, q2)); }
fn n250(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (r, b, q2)); }
fn n251(s: &mut Net) { connect_states!(s, (a, b, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (c, b, q1), (r, c, q2)); }
fn n252(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (a, b, q2)); }
fn n253(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (a, c, q2)); }
fn n254(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (a, r, q2)); }
fn n255(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (b, a, q2)); }
fn n256(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (b, c, q2)); }
fn n257(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (b, r, q2)); }
fn n258(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (c, a, q2)); }
fn n259(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (c, b, q2)); }
fn n260(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (c, r, q2)); }
fn n261(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (r, a, q2)); }
fn n262(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (r, b, q2)); }
fn n263(s: &mut Net) { connect_states!(s, (a, b, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (c, r, q1), (r, c, q2)); }
fn n264(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (a, b, q2)); }
fn n265(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (a, c, q2)); }
fn n266(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (a, r, q2)); }
fn n267(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (b, a, q2)); }
fn n268(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (b, c, q2)); }
fn n269(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (b, r, q2)); }
fn n270(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (c, a, q2)); }
fn n271(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (c, b, q2)); }
fn n272(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (c, r, q2)); }
fn n273(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (r, a, q2)); }
fn n274(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (r, b, q2)); }
fn n275(s: &mut Net) { connect_states!(s, (a, b, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (r, a, q1), (r, c, q2)); }
fn n276(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (a, b, q2)); }
fn n277(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (a, c, q2)); }
fn n278(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (a, r, q2)); }
fn n279(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (b, a, q2)); }
fn n280(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (b, c, q2)); }
fn n281(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (b, r, q2)); }
fn n282(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (c, a, q2)); }
fn n283(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (c, b, q2)); }
fn n284(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (c, r, q2)); }
fn n285(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (r, a, q2)); }
fn n286(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (r, b, q2)); }
fn n287(s: &mut Net) { connect_states!(s, (a, b, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (r, b, q1), (r, c, q2)); }
fn n288(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (a, b, q2)); }
fn n289(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (a, c, q2)); }
fn n290(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (a, r, q2)); }
fn n291(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (b, a, q2)); }
fn n292(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (b, c, q2)); }
fn n293(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (b, r, q2)); }
fn n294(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (c, a, q2)); }
fn n295(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (c, b, q2)); }
fn n296(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (c, r, q2)); }
fn n297(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (r, a, q2)); }
fn n298(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (r, b, q2)); }
fn n299(s: &mut Net) { connect_states!(s, (a, b, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (a, b, q0), (r, c, q1), (r, c, q2)); }
fn n300(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (a, b, q2)); }
fn n301(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (a, c, q2)); }
fn n302(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (a, r, q2)); }
fn n303(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (b, a, q2)); }
fn n304(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (b, c, q2)); }
fn n305(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (b, r, q2)); }
fn n306(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (c, a, q2)); }
fn n307(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (c, b, q2)); }
fn n308(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (c, r, q2)); }
fn n309(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (r, a, q2)); }
fn n310(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (r, b, q2)); }
fn n311(s: &mut Net) { connect_states!(s, (a, c, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (a, b, q1), (r, c, q2)); }
fn n312(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (a, b, q2)); }
fn n313(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (a, c, q2)); }
fn n314(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (a, r, q2)); }
fn n315(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (b, a, q2)); }
fn n316(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (b, c, q2)); }
fn n317(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (b, r, q2)); }
fn n318(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (c, a, q2)); }
fn n319(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (c, b, q2)); }
fn n320(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (c, r, q2)); }
fn n321(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (r, a, q2)); }
fn n322(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (r, b, q2)); }
fn n323(s: &mut Net) { connect_states!(s, (a, c, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (a, c, q1), (r, c, q2)); }
fn n324(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (a, b, q2)); }
fn n325(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (a, c, q2)); }
fn n326(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (a, r, q2)); }
fn n327(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (b, a, q2)); }
fn n328(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (b, c, q2)); }
fn n329(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (b, r, q2)); }
fn n330(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (c, a, q2)); }
fn n331(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (c, b, q2)); }
fn n332(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (c, r, q2)); }
fn n333(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (r, a, q2)); }
fn n334(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (r, b, q2)); }
fn n335(s: &mut Net) { connect_states!(s, (a, c, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (a, r, q1), (r, c, q2)); }
fn n336(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (a, b, q2)); }
fn n337(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (a, c, q2)); }
fn n338(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (a, r, q2)); }
fn n339(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (b, a, q2)); }
fn n340(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (b, c, q2)); }
fn n341(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (b, r, q2)); }
fn n342(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (c, a, q2)); }
fn n343(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (c, b, q2)); }
fn n344(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (c, r, q2)); }
fn n345(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (r, a, q2)); }
fn n346(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (r, b, q2)); }
fn n347(s: &mut Net) { connect_states!(s, (a, c, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (b, a, q1), (r, c, q2)); }
fn n348(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (a, b, q2)); }
fn n349(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (a, c, q2)); }
fn n350(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (a, r, q2)); }
fn n351(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (b, a, q2)); }
fn n352(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (b, c, q2)); }
fn n353(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (b, r, q2)); }
fn n354(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (c, a, q2)); }
fn n355(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (c, b, q2)); }
fn n356(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (c, r, q2)); }
fn n357(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (r, a, q2)); }
fn n358(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (r, b, q2)); }
fn n359(s: &mut Net) { connect_states!(s, (a, c, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (b, c, q1), (r, c, q2)); }
fn n360(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (a, b, q2)); }
fn n361(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (a, c, q2)); }
fn n362(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (a, r, q2)); }
fn n363(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (b, a, q2)); }
fn n364(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (b, c, q2)); }
fn n365(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (b, r, q2)); }
fn n366(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (c, a, q2)); }
fn n367(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (c, b, q2)); }
fn n368(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (c, r, q2)); }
fn n369(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (r, a, q2)); }
fn n370(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (r, b, q2)); }
fn n371(s: &mut Net) { connect_states!(s, (a, c, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (b, r, q1), (r, c, q2)); }
fn n372(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (a, b, q2)); }
fn n373(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (a, c, q2)); }
fn n374(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (a, r, q2)); }
fn n375(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (b, a, q2)); }
fn n376(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (b, c, q2)); }
fn n377(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (b, r, q2)); }
fn n378(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (c, a, q2)); }
fn n379(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (c, b, q2)); }
fn n380(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (c, r, q2)); }
fn n381(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (r, a, q2)); }
fn n382(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (r, b, q2)); }
fn n383(s: &mut Net) { connect_states!(s, (a, c, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (c, a, q1), (r, c, q2)); }
fn n384(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (a, b, q2)); }
fn n385(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (a, c, q2)); }
fn n386(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (a, r, q2)); }
fn n387(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (b, a, q2)); }
fn n388(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (b, c, q2)); }
fn n389(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (b, r, q2)); }
fn n390(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (c, a, q2)); }
fn n391(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (c, b, q2)); }
fn n392(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (c, r, q2)); }
fn n393(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (r, a, q2)); }
fn n394(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (r, b, q2)); }
fn n395(s: &mut Net) { connect_states!(s, (a, c, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (c, b, q1), (r, c, q2)); }
fn n396(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (a, b, q2)); }
fn n397(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (a, c, q2)); }
fn n398(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (a, r, q2)); }
fn n399(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (b, a, q2)); }
fn n400(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (b, c, q2)); }
fn n401(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (b, r, q2)); }
fn n402(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (c, a, q2)); }
fn n403(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (c, b, q2)); }
fn n404(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (c, r, q2)); }
fn n405(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (r, a, q2)); }
fn n406(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (r, b, q2)); }
fn n407(s: &mut Net) { connect_states!(s, (a, c, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (c, r, q1), (r, c, q2)); }
fn n408(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (a, b, q2)); }
fn n409(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (a, c, q2)); }
fn n410(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (a, r, q2)); }
fn n411(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (b, a, q2)); }
fn n412(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (b, c, q2)); }
fn n413(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (b, r, q2)); }
fn n414(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (c, a, q2)); }
fn n415(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (c, b, q2)); }
fn n416(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (c, r, q2)); }
fn n417(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (r, a, q2)); }
fn n418(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (r, b, q2)); }
fn n419(s: &mut Net) { connect_states!(s, (a, c, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (r, a, q1), (r, c, q2)); }
fn n420(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (a, b, q2)); }
fn n421(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (a, c, q2)); }
fn n422(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (a, r, q2)); }
fn n423(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (b, a, q2)); }
fn n424(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (b, c, q2)); }
fn n425(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (b, r, q2)); }
fn n426(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (c, a, q2)); }
fn n427(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (c, b, q2)); }
fn n428(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (c, r, q2)); }
fn n429(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (r, a, q2)); }
fn n430(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (r, b, q2)); }
fn n431(s: &mut Net) { connect_states!(s, (a, c, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (r, b, q1), (r, c, q2)); }
fn n432(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (a, b, q2)); }
fn n433(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (a, c, q2)); }
fn n434(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (a, r, q2)); }
fn n435(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (b, a, q2)); }
fn n436(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (b, c, q2)); }
fn n437(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (b, r, q2)); }
fn n438(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (c, a, q2)); }
fn n439(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (c, b, q2)); }
fn n440(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (c, r, q2)); }
fn n441(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (r, a, q2)); }
fn n442(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (r, b, q2)); }
fn n443(s: &mut Net) { connect_states!(s, (a, c, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (a, c, q0), (r, c, q1), (r, c, q2)); }
fn n444(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (a, b, q2)); }
fn n445(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (a, c, q2)); }
fn n446(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (a, r, q2)); }
fn n447(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (b, a, q2)); }
fn n448(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (b, c, q2)); }
fn n449(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (b, r, q2)); }
fn n450(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (c, a, q2)); }
fn n451(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (c, b, q2)); }
fn n452(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (c, r, q2)); }
fn n453(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (r, a, q2)); }
fn n454(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (r, b, q2)); }
fn n455(s: &mut Net) { connect_states!(s, (a, r, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (a, b, q1), (r, c, q2)); }
fn n456(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (a, b, q2)); }
fn n457(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (a, c, q2)); }
fn n458(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (a, r, q2)); }
fn n459(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (b, a, q2)); }
fn n460(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (b, c, q2)); }
fn n461(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (b, r, q2)); }
fn n462(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (c, a, q2)); }
fn n463(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (c, b, q2)); }
fn n464(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (c, r, q2)); }
fn n465(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (r, a, q2)); }
fn n466(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (r, b, q2)); }
fn n467(s: &mut Net) { connect_states!(s, (a, r, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (a, c, q1), (r, c, q2)); }
fn n468(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (a, b, q2)); }
fn n469(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (a, c, q2)); }
fn n470(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (a, r, q2)); }
fn n471(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (b, a, q2)); }
fn n472(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (b, c, q2)); }
fn n473(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (b, r, q2)); }
fn n474(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (c, a, q2)); }
fn n475(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (c, b, q2)); }
fn n476(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (c, r, q2)); }
fn n477(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (r, a, q2)); }
fn n478(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (r, b, q2)); }
fn n479(s: &mut Net) { connect_states!(s, (a, r, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (a, r, q1), (r, c, q2)); }
fn n480(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (a, b, q2)); }
fn n481(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (a, c, q2)); }
fn n482(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (a, r, q2)); }
fn n483(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (b, a, q2)); }
fn n484(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (b, c, q2)); }
fn n485(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (b, r, q2)); }
fn n486(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (c, a, q2)); }
fn n487(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (c, b, q2)); }
fn n488(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (c, r, q2)); }
fn n489(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (r, a, q2)); }
fn n490(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (r, b, q2)); }
fn n491(s: &mut Net) { connect_states!(s, (a, r, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (b, a, q1), (r, c, q2)); }
fn n492(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (a, b, q2)); }
fn n493(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (a, c, q2)); }
fn n494(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (a, r, q2)); }
fn n495(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (b, a, q2)); }
fn n496(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (b, c, q2)); }
fn n497(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (b, r, q2)); }
fn n498(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (c, a, q2)); }
fn n499(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (c, b, q2)); }
fn n500(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (c, r, q2)); }
fn n501(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (r, a, q2)); }
fn n502(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (r, b, q2)); }
fn n503(s: &mut Net) { connect_states!(s, (a, r, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (b, c, q1), (r, c, q2)); }
fn n504(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (a, b, q2)); }
fn n505(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (a, c, q2)); }
fn n506(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (a, r, q2)); }
fn n507(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (b, a, q2)); }
fn n508(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (b, c, q2)); }
fn n509(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (b, r, q2)); }
fn n510(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (c, a, q2)); }
fn n511(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (c, b, q2)); }
fn n512(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (c, r, q2)); }
fn n513(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (r, a, q2)); }
fn n514(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (r, b, q2)); }
fn n515(s: &mut Net) { connect_states!(s, (a, r, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (b, r, q1), (r, c, q2)); }
fn n516(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (a, b, q2)); }
fn n517(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (a, c, q2)); }
fn n518(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (a, r, q2)); }
fn n519(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (b, a, q2)); }
fn n520(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (b, c, q2)); }
fn n521(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (b, r, q2)); }
fn n522(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (c, a, q2)); }
fn n523(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (c, b, q2)); }
fn n524(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (c, r, q2)); }
fn n525(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (r, a, q2)); }
fn n526(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (r, b, q2)); }
fn n527(s: &mut Net) { connect_states!(s, (a, r, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (c, a, q1), (r, c, q2)); }
fn n528(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (a, b, q2)); }
fn n529(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (a, c, q2)); }
fn n530(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (a, r, q2)); }
fn n531(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (b, a, q2)); }
fn n532(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (b, c, q2)); }
fn n533(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (b, r, q2)); }
fn n534(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (c, a, q2)); }
fn n535(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (c, b, q2)); }
fn n536(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (c, r, q2)); }
fn n537(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (r, a, q2)); }
fn n538(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (r, b, q2)); }
fn n539(s: &mut Net) { connect_states!(s, (a, r, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (c, b, q1), (r, c, q2)); }
fn n540(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (a, b, q2)); }
fn n541(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (a, c, q2)); }
fn n542(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (a, r, q2)); }
fn n543(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (b, a, q2)); }
fn n544(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (b, c, q2)); }
fn n545(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (b, r, q2)); }
fn n546(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (c, a, q2)); }
fn n547(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (c, b, q2)); }
fn n548(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (c, r, q2)); }
fn n549(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (r, a, q2)); }
fn n550(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (r, b, q2)); }
fn n551(s: &mut Net) { connect_states!(s, (a, r, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (c, r, q1), (r, c, q2)); }
fn n552(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (a, b, q2)); }
fn n553(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (a, c, q2)); }
fn n554(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (a, r, q2)); }
fn n555(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (b, a, q2)); }
fn n556(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (b, c, q2)); }
fn n557(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (b, r, q2)); }
fn n558(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (c, a, q2)); }
fn n559(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (c, b, q2)); }
fn n560(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (c, r, q2)); }
fn n561(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (r, a, q2)); }
fn n562(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (r, b, q2)); }
fn n563(s: &mut Net) { connect_states!(s, (a, r, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (r, a, q1), (r, c, q2)); }
fn n564(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (a, b, q2)); }
fn n565(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (a, c, q2)); }
fn n566(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (a, r, q2)); }
fn n567(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (b, a, q2)); }
fn n568(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (b, c, q2)); }
fn n569(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (b, r, q2)); }
fn n570(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (c, a, q2)); }
fn n571(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (c, b, q2)); }
fn n572(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (c, r, q2)); }
fn n573(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (r, a, q2)); }
fn n574(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (r, b, q2)); }
fn n575(s: &mut Net) { connect_states!(s, (a, r, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (r, b, q1), (r, c, q2)); }
fn n576(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (a, b, q2)); }
fn n577(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (a, c, q2)); }
fn n578(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (a, r, q2)); }
fn n579(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (b, a, q2)); }
fn n580(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (b, c, q2)); }
fn n581(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (b, r, q2)); }
fn n582(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (c, a, q2)); }
fn n583(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (c, b, q2)); }
fn n584(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (c, r, q2)); }
fn n585(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (r, a, q2)); }
fn n586(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (r, b, q2)); }
fn n587(s: &mut Net) { connect_states!(s, (a, r, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (a, r, q0), (r, c, q1), (r, c, q2)); }
fn n588(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (a, b, q2)); }
fn n589(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (a, c, q2)); }
fn n590(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (a, r, q2)); }
fn n591(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (b, a, q2)); }
fn n592(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (b, c, q2)); }
fn n593(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (b, r, q2)); }
fn n594(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (c, a, q2)); }
fn n595(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (c, b, q2)); }
fn n596(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (c, r, q2)); }
fn n597(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (r, a, q2)); }
fn n598(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (r, b, q2)); }
fn n599(s: &mut Net) { connect_states!(s, (b, a, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (a, b, q1), (r, c, q2)); }
fn n600(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (a, b, q2)); }
fn n601(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (a, c, q2)); }
fn n602(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (a, r, q2)); }
fn n603(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (b, a, q2)); }
fn n604(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (b, c, q2)); }
fn n605(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (b, r, q2)); }
fn n606(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (c, a, q2)); }
fn n607(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (c, b, q2)); }
fn n608(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (c, r, q2)); }
fn n609(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (r, a, q2)); }
fn n610(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (r, b, q2)); }
fn n611(s: &mut Net) { connect_states!(s, (b, a, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (a, c, q1), (r, c, q2)); }
fn n612(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (a, b, q2)); }
fn n613(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (a, c, q2)); }
fn n614(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (a, r, q2)); }
fn n615(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (b, a, q2)); }
fn n616(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (b, c, q2)); }
fn n617(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (b, r, q2)); }
fn n618(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (c, a, q2)); }
fn n619(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (c, b, q2)); }
fn n620(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (c, r, q2)); }
fn n621(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (r, a, q2)); }
fn n622(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (r, b, q2)); }
fn n623(s: &mut Net) { connect_states!(s, (b, a, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (a, r, q1), (r, c, q2)); }
fn n624(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (a, b, q2)); }
fn n625(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (a, c, q2)); }
fn n626(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (a, r, q2)); }
fn n627(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (b, a, q2)); }
fn n628(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (b, c, q2)); }
fn n629(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (b, r, q2)); }
fn n630(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (c, a, q2)); }
fn n631(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (c, b, q2)); }
fn n632(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (c, r, q2)); }
fn n633(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (r, a, q2)); }
fn n634(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (r, b, q2)); }
fn n635(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (b, a, q1), (r, c, q2)); }
fn n636(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (a, b, q2)); }
fn n637(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (a, c, q2)); }
fn n638(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (a, r, q2)); }
fn n639(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (b, a, q2)); }
fn n640(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (b, c, q2)); }
fn n641(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (b, r, q2)); }
fn n642(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (c, a, q2)); }
fn n643(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (c, b, q2)); }
fn n644(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (c, r, q2)); }
fn n645(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (r, a, q2)); }
fn n646(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (r, b, q2)); }
fn n647(s: &mut Net) { connect_states!(s, (b, a, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (b, c, q1), (r, c, q2)); }
fn n648(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (a, b, q2)); }
fn n649(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (a, c, q2)); }
fn n650(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (a, r, q2)); }
fn n651(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (b, a, q2)); }
fn n652(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (b, c, q2)); }
fn n653(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (b, r, q2)); }
fn n654(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (c, a, q2)); }
fn n655(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (c, b, q2)); }
fn n656(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (c, r, q2)); }
fn n657(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (r, a, q2)); }
fn n658(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (r, b, q2)); }
fn n659(s: &mut Net) { connect_states!(s, (b, a, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (b, r, q1), (r, c, q2)); }
fn n660(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (a, b, q2)); }
fn n661(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (a, c, q2)); }
fn n662(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (a, r, q2)); }
fn n663(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (b, a, q2)); }
fn n664(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (b, c, q2)); }
fn n665(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (b, r, q2)); }
fn n666(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (c, a, q2)); }
fn n667(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (c, b, q2)); }
fn n668(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (c, r, q2)); }
fn n669(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (r, a, q2)); }
fn n670(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (r, b, q2)); }
fn n671(s: &mut Net) { connect_states!(s, (b, a, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (c, a, q1), (r, c, q2)); }
fn n672(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (a, b, q2)); }
fn n673(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (a, c, q2)); }
fn n674(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (a, r, q2)); }
fn n675(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (b, a, q2)); }
fn n676(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (b, c, q2)); }
fn n677(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (b, r, q2)); }
fn n678(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (c, a, q2)); }
fn n679(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (c, b, q2)); }
fn n680(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (c, r, q2)); }
fn n681(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (r, a, q2)); }
fn n682(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (r, b, q2)); }
fn n683(s: &mut Net) { connect_states!(s, (b, a, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (c, b, q1), (r, c, q2)); }
fn n684(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (a, b, q2)); }
fn n685(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (a, c, q2)); }
fn n686(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (a, r, q2)); }
fn n687(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (b, a, q2)); }
fn n688(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (b, c, q2)); }
fn n689(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (b, r, q2)); }
fn n690(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (c, a, q2)); }
fn n691(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (c, b, q2)); }
fn n692(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (c, r, q2)); }
fn n693(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (r, a, q2)); }
fn n694(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (r, b, q2)); }
fn n695(s: &mut Net) { connect_states!(s, (b, a, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (c, r, q1), (r, c, q2)); }
fn n696(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (a, b, q2)); }
fn n697(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (a, c, q2)); }
fn n698(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (a, r, q2)); }
fn n699(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (b, a, q2)); }
fn n700(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (b, c, q2)); }
fn n701(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (b, r, q2)); }
fn n702(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (c, a, q2)); }
fn n703(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (c, b, q2)); }
fn n704(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (c, r, q2)); }
fn n705(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (r, a, q2)); }
fn n706(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (r, b, q2)); }
fn n707(s: &mut Net) { connect_states!(s, (b, a, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (r, a, q1), (r, c, q2)); }
fn n708(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (a, b, q2)); }
fn n709(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (a, c, q2)); }
fn n710(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (a, r, q2)); }
fn n711(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (b, a, q2)); }
fn n712(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (b, c, q2)); }
fn n713(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (b, r, q2)); }
fn n714(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (c, a, q2)); }
fn n715(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (c, b, q2)); }
fn n716(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (c, r, q2)); }
fn n717(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (r, a, q2)); }
fn n718(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (r, b, q2)); }
fn n719(s: &mut Net) { connect_states!(s, (b, a, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (r, b, q1), (r, c, q2)); }
fn n720(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (a, b, q2)); }
fn n721(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (a, c, q2)); }
fn n722(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (a, r, q2)); }
fn n723(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (b, a, q2)); }
fn n724(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (b, c, q2)); }
fn n725(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (b, r, q2)); }
fn n726(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (c, a, q2)); }
fn n727(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (c, b, q2)); }
fn n728(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (c, r, q2)); }
fn n729(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (r, a, q2)); }
fn n730(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (r, b, q2)); }
fn n731(s: &mut Net) { connect_states!(s, (b, a, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (b, a, q0), (r, c, q1), (r, c, q2)); }
fn n732(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (a, b, q2)); }
fn n733(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (a, c, q2)); }
fn n734(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (a, r, q2)); }
fn n735(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (b, a, q2)); }
fn n736(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (b, c, q2)); }
fn n737(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (b, r, q2)); }
fn n738(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (c, a, q2)); }
fn n739(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (c, b, q2)); }
fn n740(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (c, r, q2)); }
fn n741(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (r, a, q2)); }
fn n742(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (r, b, q2)); }
fn n743(s: &mut Net) { connect_states!(s, (b, c, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (a, b, q1), (r, c, q2)); }
fn n744(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (a, b, q2)); }
fn n745(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (a, c, q2)); }
fn n746(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (a, r, q2)); }
fn n747(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (b, a, q2)); }
fn n748(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (b, c, q2)); }
fn n749(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (b, r, q2)); }
fn n750(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (c, a, q2)); }
fn n751(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (c, b, q2)); }
fn n752(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (c, r, q2)); }
fn n753(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (r, a, q2)); }
fn n754(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (r, b, q2)); }
fn n755(s: &mut Net) { connect_states!(s, (b, c, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (a, c, q1), (r, c, q2)); }
fn n756(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (a, b, q2)); }
fn n757(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (a, c, q2)); }
fn n758(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (a, r, q2)); }
fn n759(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (b, a, q2)); }
fn n760(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (b, c, q2)); }
fn n761(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (b, r, q2)); }
fn n762(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (c, a, q2)); }
fn n763(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (c, b, q2)); }
fn n764(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (c, r, q2)); }
fn n765(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (r, a, q2)); }
fn n766(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (r, b, q2)); }
fn n767(s: &mut Net) { connect_states!(s, (b, c, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (a, r, q1), (r, c, q2)); }
fn n768(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (a, b, q2)); }
fn n769(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (a, c, q2)); }
fn n770(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (a, r, q2)); }
fn n771(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (b, a, q2)); }
fn n772(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (b, c, q2)); }
fn n773(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (b, r, q2)); }
fn n774(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (c, a, q2)); }
fn n775(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (c, b, q2)); }
fn n776(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (c, r, q2)); }
fn n777(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (r, a, q2)); }
fn n778(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (r, b, q2)); }
fn n779(s: &mut Net) { connect_states!(s, (b, c, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (b, a, q1), (r, c, q2)); }
fn n780(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (a, b, q2)); }
fn n781(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (a, c, q2)); }
fn n782(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (a, r, q2)); }
fn n783(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (b, a, q2)); }
fn n784(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (b, c, q2)); }
fn n785(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (b, r, q2)); }
fn n786(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (c, a, q2)); }
fn n787(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (c, b, q2)); }
fn n788(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (c, r, q2)); }
fn n789(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (r, a, q2)); }
fn n790(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (r, b, q2)); }
fn n791(s: &mut Net) { connect_states!(s, (b, c, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (b, c, q1), (r, c, q2)); }
fn n792(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (a, b, q2)); }
fn n793(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (a, c, q2)); }
fn n794(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (a, r, q2)); }
fn n795(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (b, a, q2)); }
fn n796(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (b, c, q2)); }
fn n797(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (b, r, q2)); }
fn n798(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (c, a, q2)); }
fn n799(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (c, b, q2)); }
fn n800(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (c, r, q2)); }
fn n801(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (r, a, q2)); }
fn n802(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (r, b, q2)); }
fn n803(s: &mut Net) { connect_states!(s, (b, c, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (b, r, q1), (r, c, q2)); }
fn n804(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (a, b, q2)); }
fn n805(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (a, c, q2)); }
fn n806(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (a, r, q2)); }
fn n807(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (b, a, q2)); }
fn n808(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (b, c, q2)); }
fn n809(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (b, r, q2)); }
fn n810(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (c, a, q2)); }
fn n811(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (c, b, q2)); }
fn n812(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (c, r, q2)); }
fn n813(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (r, a, q2)); }
fn n814(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (r, b, q2)); }
fn n815(s: &mut Net) { connect_states!(s, (b, c, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (c, a, q1), (r, c, q2)); }
fn n816(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (a, b, q2)); }
fn n817(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (a, c, q2)); }
fn n818(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (a, r, q2)); }
fn n819(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (b, a, q2)); }
fn n820(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (b, c, q2)); }
fn n821(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (b, r, q2)); }
fn n822(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (c, a, q2)); }
fn n823(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (c, b, q2)); }
fn n824(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (c, r, q2)); }
fn n825(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (r, a, q2)); }
fn n826(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (r, b, q2)); }
fn n827(s: &mut Net) { connect_states!(s, (b, c, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (c, b, q1), (r, c, q2)); }
fn n828(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (a, b, q2)); }
fn n829(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (a, c, q2)); }
fn n830(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (a, r, q2)); }
fn n831(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (b, a, q2)); }
fn n832(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (b, c, q2)); }
fn n833(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (b, r, q2)); }
fn n834(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (c, a, q2)); }
fn n835(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (c, b, q2)); }
fn n836(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (c, r, q2)); }
fn n837(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (r, a, q2)); }
fn n838(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (r, b, q2)); }
fn n839(s: &mut Net) { connect_states!(s, (b, c, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (c, r, q1), (r, c, q2)); }
fn n840(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (a, b, q2)); }
fn n841(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (a, c, q2)); }
fn n842(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (a, r, q2)); }
fn n843(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (b, a, q2)); }
fn n844(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (b, c, q2)); }
fn n845(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (b, r, q2)); }
fn n846(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (c, a, q2)); }
fn n847(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (c, b, q2)); }
fn n848(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (c, r, q2)); }
fn n849(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (r, a, q2)); }
fn n850(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (r, b, q2)); }
fn n851(s: &mut Net) { connect_states!(s, (b, c, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (r, a, q1), (r, c, q2)); }
fn n852(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (a, b, q2)); }
fn n853(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (a, c, q2)); }
fn n854(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (a, r, q2)); }
fn n855(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (b, a, q2)); }
fn n856(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (b, c, q2)); }
fn n857(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (b, r, q2)); }
fn n858(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (c, a, q2)); }
fn n859(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (c, b, q2)); }
fn n860(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (c, r, q2)); }
fn n861(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (r, a, q2)); }
fn n862(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (r, b, q2)); }
fn n863(s: &mut Net) { connect_states!(s, (b, c, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (r, b, q1), (r, c, q2)); }
fn n864(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (a, b, q2)); }
fn n865(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (a, c, q2)); }
fn n866(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (a, r, q2)); }
fn n867(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (b, a, q2)); }
fn n868(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (b, c, q2)); }
fn n869(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (b, r, q2)); }
fn n870(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (c, a, q2)); }
fn n871(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (c, b, q2)); }
fn n872(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (c, r, q2)); }
fn n873(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (r, a, q2)); }
fn n874(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (r, b, q2)); }
fn n875(s: &mut Net) { connect_states!(s, (b, c, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (b, c, q0), (r, c, q1), (r, c, q2)); }
fn n876(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (a, b, q2)); }
fn n877(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (a, c, q2)); }
fn n878(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (a, r, q2)); }
fn n879(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (b, a, q2)); }
fn n880(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (b, c, q2)); }
fn n881(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (b, r, q2)); }
fn n882(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (c, a, q2)); }
fn n883(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (c, b, q2)); }
fn n884(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (c, r, q2)); }
fn n885(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (r, a, q2)); }
fn n886(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (r, b, q2)); }
fn n887(s: &mut Net) { connect_states!(s, (b, r, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (a, b, q1), (r, c, q2)); }
fn n888(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (a, b, q2)); }
fn n889(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (a, c, q2)); }
fn n890(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (a, r, q2)); }
fn n891(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (b, a, q2)); }
fn n892(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (b, c, q2)); }
fn n893(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (b, r, q2)); }
fn n894(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (c, a, q2)); }
fn n895(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (c, b, q2)); }
fn n896(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (c, r, q2)); }
fn n897(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (r, a, q2)); }
fn n898(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (r, b, q2)); }
fn n899(s: &mut Net) { connect_states!(s, (b, r, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (a, c, q1), (r, c, q2)); }
fn n900(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (a, b, q2)); }
fn n901(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (a, c, q2)); }
fn n902(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (a, r, q2)); }
fn n903(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (b, a, q2)); }
fn n904(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (b, c, q2)); }
fn n905(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (b, r, q2)); }
fn n906(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (c, a, q2)); }
fn n907(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (c, b, q2)); }
fn n908(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (c, r, q2)); }
fn n909(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (r, a, q2)); }
fn n910(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (r, b, q2)); }
fn n911(s: &mut Net) { connect_states!(s, (b, r, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (a, r, q1), (r, c, q2)); }
fn n912(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (a, b, q2)); }
fn n913(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (a, c, q2)); }
fn n914(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (a, r, q2)); }
fn n915(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (b, a, q2)); }
fn n916(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (b, c, q2)); }
fn n917(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (b, r, q2)); }
fn n918(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (c, a, q2)); }
fn n919(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (c, b, q2)); }
fn n920(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (c, r, q2)); }
fn n921(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (r, a, q2)); }
fn n922(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (r, b, q2)); }
fn n923(s: &mut Net) { connect_states!(s, (b, r, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (b, a, q1), (r, c, q2)); }
fn n924(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (a, b, q2)); }
fn n925(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (a, c, q2)); }
fn n926(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (a, r, q2)); }
fn n927(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (b, a, q2)); }
fn n928(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (b, c, q2)); }
fn n929(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (b, r, q2)); }
fn n930(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (c, a, q2)); }
fn n931(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (c, b, q2)); }
fn n932(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (c, r, q2)); }
fn n933(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (r, a, q2)); }
fn n934(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (r, b, q2)); }
fn n935(s: &mut Net) { connect_states!(s, (b, r, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (b, c, q1), (r, c, q2)); }
fn n936(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (a, b, q2)); }
fn n937(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (a, c, q2)); }
fn n938(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (a, r, q2)); }
fn n939(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (b, a, q2)); }
fn n940(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (b, c, q2)); }
fn n941(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (b, r, q2)); }
fn n942(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (c, a, q2)); }
fn n943(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (c, b, q2)); }
fn n944(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (c, r, q2)); }
fn n945(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (r, a, q2)); }
fn n946(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (r, b, q2)); }
fn n947(s: &mut Net) { connect_states!(s, (b, r, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (b, r, q1), (r, c, q2)); }
fn n948(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (a, b, q2)); }
fn n949(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (a, c, q2)); }
fn n950(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (a, r, q2)); }
fn n951(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (b, a, q2)); }
fn n952(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (b, c, q2)); }
fn n953(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (b, r, q2)); }
fn n954(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (c, a, q2)); }
fn n955(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (c, b, q2)); }
fn n956(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (c, r, q2)); }
fn n957(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (r, a, q2)); }
fn n958(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (r, b, q2)); }
fn n959(s: &mut Net) { connect_states!(s, (b, r, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (c, a, q1), (r, c, q2)); }
fn n960(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (a, b, q2)); }
fn n961(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (a, c, q2)); }
fn n962(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (a, r, q2)); }
fn n963(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (b, a, q2)); }
fn n964(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (b, c, q2)); }
fn n965(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (b, r, q2)); }
fn n966(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (c, a, q2)); }
fn n967(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (c, b, q2)); }
fn n968(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (c, r, q2)); }
fn n969(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (r, a, q2)); }
fn n970(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (r, b, q2)); }
fn n971(s: &mut Net) { connect_states!(s, (b, r, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (c, b, q1), (r, c, q2)); }
fn n972(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (a, b, q2)); }
fn n973(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (a, c, q2)); }
fn n974(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (a, r, q2)); }
fn n975(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (b, a, q2)); }
fn n976(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (b, c, q2)); }
fn n977(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (b, r, q2)); }
fn n978(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (c, a, q2)); }
fn n979(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (c, b, q2)); }
fn n980(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (c, r, q2)); }
fn n981(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (r, a, q2)); }
fn n982(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (r, b, q2)); }
fn n983(s: &mut Net) { connect_states!(s, (b, r, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (c, r, q1), (r, c, q2)); }
fn n984(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (a, b, q2)); }
fn n985(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (a, c, q2)); }
fn n986(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (a, r, q2)); }
fn n987(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (b, a, q2)); }
fn n988(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (b, c, q2)); }
fn n989(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (b, r, q2)); }
fn n990(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (c, a, q2)); }
fn n991(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (c, b, q2)); }
fn n992(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (c, r, q2)); }
fn n993(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (r, a, q2)); }
fn n994(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (r, b, q2)); }
fn n995(s: &mut Net) { connect_states!(s, (b, r, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (r, a, q1), (r, c, q2)); }
fn n996(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (a, b, q2)); }
fn n997(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (a, c, q2)); }
fn n998(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (a, r, q2)); }
fn n999(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (b, a, q2)); }
fn n1000(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (b, c, q2)); }
fn n1001(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (b, r, q2)); }
fn n1002(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (c, a, q2)); }
fn n1003(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (c, b, q2)); }
fn n1004(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (c, r, q2)); }
fn n1005(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (r, a, q2)); }
fn n1006(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (r, b, q2)); }
fn n1007(s: &mut Net) { connect_states!(s, (b, r, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (r, b, q1), (r, c, q2)); }
fn n1008(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (a, b, q2)); }
fn n1009(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (a, c, q2)); }
fn n1010(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (a, r, q2)); }
fn n1011(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (b, a, q2)); }
fn n1012(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (b, c, q2)); }
fn n1013(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (b, r, q2)); }
fn n1014(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (c, a, q2)); }
fn n1015(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (c, b, q2)); }
fn n1016(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (c, r, q2)); }
fn n1017(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (r, a, q2)); }
fn n1018(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (r, b, q2)); }
fn n1019(s: &mut Net) { connect_states!(s, (b, r, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (b, r, q0), (r, c, q1), (r, c, q2)); }
fn n1020(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (a, b, q2)); }
fn n1021(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (a, c, q2)); }
fn n1022(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (a, r, q2)); }
fn n1023(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (b, a, q2)); }
fn n1024(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (b, c, q2)); }
fn n1025(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (b, r, q2)); }
fn n1026(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (c, a, q2)); }
fn n1027(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (c, b, q2)); }
fn n1028(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (c, r, q2)); }
fn n1029(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (r, a, q2)); }
fn n1030(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (r, b, q2)); }
fn n1031(s: &mut Net) { connect_states!(s, (c, a, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (a, b, q1), (r, c, q2)); }
fn n1032(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (a, b, q2)); }
fn n1033(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (a, c, q2)); }
fn n1034(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (a, r, q2)); }
fn n1035(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (b, a, q2)); }
fn n1036(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (b, c, q2)); }
fn n1037(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (b, r, q2)); }
fn n1038(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (c, a, q2)); }
fn n1039(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (c, b, q2)); }
fn n1040(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (c, r, q2)); }
fn n1041(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (r, a, q2)); }
fn n1042(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (r, b, q2)); }
fn n1043(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (a, c, q1), (r, c, q2)); }
fn n1044(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (a, b, q2)); }
fn n1045(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (a, c, q2)); }
fn n1046(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (a, r, q2)); }
fn n1047(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (b, a, q2)); }
fn n1048(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (b, c, q2)); }
fn n1049(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (b, r, q2)); }
fn n1050(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (c, a, q2)); }
fn n1051(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (c, b, q2)); }
fn n1052(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (c, r, q2)); }
fn n1053(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (r, a, q2)); }
fn n1054(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (r, b, q2)); }
fn n1055(s: &mut Net) { connect_states!(s, (c, a, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (a, r, q1), (r, c, q2)); }
fn n1056(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (a, b, q2)); }
fn n1057(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (a, c, q2)); }
fn n1058(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (a, r, q2)); }
fn n1059(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (b, a, q2)); }
fn n1060(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (b, c, q2)); }
fn n1061(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (b, r, q2)); }
fn n1062(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (c, a, q2)); }
fn n1063(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (c, b, q2)); }
fn n1064(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (c, r, q2)); }
fn n1065(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (r, a, q2)); }
fn n1066(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (r, b, q2)); }
fn n1067(s: &mut Net) { connect_states!(s, (c, a, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (b, a, q1), (r, c, q2)); }
fn n1068(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (a, b, q2)); }
fn n1069(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (a, c, q2)); }
fn n1070(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (a, r, q2)); }
fn n1071(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (b, a, q2)); }
fn n1072(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (b, c, q2)); }
fn n1073(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (b, r, q2)); }
fn n1074(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (c, a, q2)); }
fn n1075(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (c, b, q2)); }
fn n1076(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (c, r, q2)); }
fn n1077(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (r, a, q2)); }
fn n1078(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (r, b, q2)); }
fn n1079(s: &mut Net) { connect_states!(s, (c, a, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (b, c, q1), (r, c, q2)); }
fn n1080(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (a, b, q2)); }
fn n1081(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (a, c, q2)); }
fn n1082(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (a, r, q2)); }
fn n1083(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (b, a, q2)); }
fn n1084(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (b, c, q2)); }
fn n1085(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (b, r, q2)); }
fn n1086(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (c, a, q2)); }
fn n1087(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (c, b, q2)); }
fn n1088(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (c, r, q2)); }
fn n1089(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (r, a, q2)); }
fn n1090(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (r, b, q2)); }
fn n1091(s: &mut Net) { connect_states!(s, (c, a, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (b, r, q1), (r, c, q2)); }
fn n1092(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (a, b, q2)); }
fn n1093(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (a, c, q2)); }
fn n1094(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (a, r, q2)); }
fn n1095(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (b, a, q2)); }
fn n1096(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (b, c, q2)); }
fn n1097(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (b, r, q2)); }
fn n1098(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (c, a, q2)); }
fn n1099(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (c, b, q2)); }
fn n1100(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (c, r, q2)); }
fn n1101(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (r, a, q2)); }
fn n1102(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (r, b, q2)); }
fn n1103(s: &mut Net) { connect_states!(s, (c, a, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (c, a, q1), (r, c, q2)); }
fn n1104(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (a, b, q2)); }
fn n1105(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (a, c, q2)); }
fn n1106(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (a, r, q2)); }
fn n1107(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (b, a, q2)); }
fn n1108(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (b, c, q2)); }
fn n1109(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (b, r, q2)); }
fn n1110(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (c, a, q2)); }
fn n1111(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (c, b, q2)); }
fn n1112(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (c, r, q2)); }
fn n1113(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (r, a, q2)); }
fn n1114(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (r, b, q2)); }
fn n1115(s: &mut Net) { connect_states!(s, (c, a, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (c, b, q1), (r, c, q2)); }
fn n1116(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (a, b, q2)); }
fn n1117(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (a, c, q2)); }
fn n1118(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (a, r, q2)); }
fn n1119(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (b, a, q2)); }
fn n1120(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (b, c, q2)); }
fn n1121(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (b, r, q2)); }
fn n1122(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (c, a, q2)); }
fn n1123(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (c, b, q2)); }
fn n1124(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (c, r, q2)); }
fn n1125(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (r, a, q2)); }
fn n1126(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (r, b, q2)); }
fn n1127(s: &mut Net) { connect_states!(s, (c, a, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (c, r, q1), (r, c, q2)); }
fn n1128(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (a, b, q2)); }
fn n1129(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (a, c, q2)); }
fn n1130(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (a, r, q2)); }
fn n1131(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (b, a, q2)); }
fn n1132(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (b, c, q2)); }
fn n1133(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (b, r, q2)); }
fn n1134(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (c, a, q2)); }
fn n1135(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (c, b, q2)); }
fn n1136(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (c, r, q2)); }
fn n1137(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (r, a, q2)); }
fn n1138(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (r, b, q2)); }
fn n1139(s: &mut Net) { connect_states!(s, (c, a, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (r, a, q1), (r, c, q2)); }
fn n1140(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (a, b, q2)); }
fn n1141(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (a, c, q2)); }
fn n1142(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (a, r, q2)); }
fn n1143(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (b, a, q2)); }
fn n1144(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (b, c, q2)); }
fn n1145(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (b, r, q2)); }
fn n1146(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (c, a, q2)); }
fn n1147(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (c, b, q2)); }
fn n1148(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (c, r, q2)); }
fn n1149(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (r, a, q2)); }
fn n1150(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (r, b, q2)); }
fn n1151(s: &mut Net) { connect_states!(s, (c, a, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (r, b, q1), (r, c, q2)); }
fn n1152(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (a, b, q2)); }
fn n1153(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (a, c, q2)); }
fn n1154(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (a, r, q2)); }
fn n1155(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (b, a, q2)); }
fn n1156(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (b, c, q2)); }
fn n1157(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (b, r, q2)); }
fn n1158(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (c, a, q2)); }
fn n1159(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (c, b, q2)); }
fn n1160(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (c, r, q2)); }
fn n1161(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (r, a, q2)); }
fn n1162(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (r, b, q2)); }
fn n1163(s: &mut Net) { connect_states!(s, (c, a, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (c, a, q0), (r, c, q1), (r, c, q2)); }
fn n1164(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (a, b, q2)); }
fn n1165(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (a, c, q2)); }
fn n1166(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (a, r, q2)); }
fn n1167(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (b, a, q2)); }
fn n1168(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (b, c, q2)); }
fn n1169(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (b, r, q2)); }
fn n1170(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (c, a, q2)); }
fn n1171(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (c, b, q2)); }
fn n1172(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (c, r, q2)); }
fn n1173(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (r, a, q2)); }
fn n1174(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (r, b, q2)); }
fn n1175(s: &mut Net) { connect_states!(s, (c, b, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (a, b, q1), (r, c, q2)); }
fn n1176(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (a, b, q2)); }
fn n1177(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (a, c, q2)); }
fn n1178(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (a, r, q2)); }
fn n1179(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (b, a, q2)); }
fn n1180(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (b, c, q2)); }
fn n1181(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (b, r, q2)); }
fn n1182(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (c, a, q2)); }
fn n1183(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (c, b, q2)); }
fn n1184(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (c, r, q2)); }
fn n1185(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (r, a, q2)); }
fn n1186(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (r, b, q2)); }
fn n1187(s: &mut Net) { connect_states!(s, (c, b, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (a, c, q1), (r, c, q2)); }
fn n1188(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (a, b, q2)); }
fn n1189(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (a, c, q2)); }
fn n1190(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (a, r, q2)); }
fn n1191(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (b, a, q2)); }
fn n1192(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (b, c, q2)); }
fn n1193(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (b, r, q2)); }
fn n1194(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (c, a, q2)); }
fn n1195(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (c, b, q2)); }
fn n1196(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (c, r, q2)); }
fn n1197(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (r, a, q2)); }
fn n1198(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (r, b, q2)); }
fn n1199(s: &mut Net) { connect_states!(s, (c, b, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (a, r, q1), (r, c, q2)); }
fn n1200(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (a, b, q2)); }
fn n1201(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (a, c, q2)); }
fn n1202(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (a, r, q2)); }
fn n1203(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (b, a, q2)); }
fn n1204(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (b, c, q2)); }
fn n1205(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (b, r, q2)); }
fn n1206(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (c, a, q2)); }
fn n1207(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (c, b, q2)); }
fn n1208(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (c, r, q2)); }
fn n1209(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (r, a, q2)); }
fn n1210(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (r, b, q2)); }
fn n1211(s: &mut Net) { connect_states!(s, (c, b, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (b, a, q1), (r, c, q2)); }
fn n1212(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (a, b, q2)); }
fn n1213(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (a, c, q2)); }
fn n1214(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (a, r, q2)); }
fn n1215(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (b, a, q2)); }
fn n1216(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (b, c, q2)); }
fn n1217(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (b, r, q2)); }
fn n1218(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (c, a, q2)); }
fn n1219(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (c, b, q2)); }
fn n1220(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (c, r, q2)); }
fn n1221(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (r, a, q2)); }
fn n1222(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (r, b, q2)); }
fn n1223(s: &mut Net) { connect_states!(s, (c, b, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (b, c, q1), (r, c, q2)); }
fn n1224(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (a, b, q2)); }
fn n1225(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (a, c, q2)); }
fn n1226(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (a, r, q2)); }
fn n1227(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (b, a, q2)); }
fn n1228(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (b, c, q2)); }
fn n1229(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (b, r, q2)); }
fn n1230(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (c, a, q2)); }
fn n1231(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (c, b, q2)); }
fn n1232(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (c, r, q2)); }
fn n1233(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (r, a, q2)); }
fn n1234(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (r, b, q2)); }
fn n1235(s: &mut Net) { connect_states!(s, (c, b, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (b, r, q1), (r, c, q2)); }
fn n1236(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (a, b, q2)); }
fn n1237(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (a, c, q2)); }
fn n1238(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (a, r, q2)); }
fn n1239(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (b, a, q2)); }
fn n1240(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (b, c, q2)); }
fn n1241(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (b, r, q2)); }
fn n1242(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (c, a, q2)); }
fn n1243(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (c, b, q2)); }
fn n1244(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (c, r, q2)); }
fn n1245(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (r, a, q2)); }
fn n1246(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (r, b, q2)); }
fn n1247(s: &mut Net) { connect_states!(s, (c, b, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (c, a, q1), (r, c, q2)); }
fn n1248(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (a, b, q2)); }
fn n1249(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (a, c, q2)); }
fn n1250(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (a, r, q2)); }
fn n1251(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (b, a, q2)); }
fn n1252(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (b, c, q2)); }
fn n1253(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (b, r, q2)); }
fn n1254(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (c, a, q2)); }
fn n1255(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (c, b, q2)); }
fn n1256(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (c, r, q2)); }
fn n1257(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (r, a, q2)); }
fn n1258(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (r, b, q2)); }
fn n1259(s: &mut Net) { connect_states!(s, (c, b, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (c, b, q1), (r, c, q2)); }
fn n1260(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (a, b, q2)); }
fn n1261(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (a, c, q2)); }
fn n1262(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (a, r, q2)); }
fn n1263(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (b, a, q2)); }
fn n1264(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (b, c, q2)); }
fn n1265(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (b, r, q2)); }
fn n1266(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (c, a, q2)); }
fn n1267(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (c, b, q2)); }
fn n1268(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (c, r, q2)); }
fn n1269(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (r, a, q2)); }
fn n1270(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (r, b, q2)); }
fn n1271(s: &mut Net) { connect_states!(s, (c, b, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (c, r, q1), (r, c, q2)); }
fn n1272(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (a, b, q2)); }
fn n1273(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (a, c, q2)); }
fn n1274(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (a, r, q2)); }
fn n1275(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (b, a, q2)); }
fn n1276(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (b, c, q2)); }
fn n1277(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (b, r, q2)); }
fn n1278(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (c, a, q2)); }
fn n1279(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (c, b, q2)); }
fn n1280(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (c, r, q2)); }
fn n1281(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (r, a, q2)); }
fn n1282(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (r, b, q2)); }
fn n1283(s: &mut Net) { connect_states!(s, (c, b, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (r, a, q1), (r, c, q2)); }
fn n1284(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (a, b, q2)); }
fn n1285(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (a, c, q2)); }
fn n1286(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (a, r, q2)); }
fn n1287(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (b, a, q2)); }
fn n1288(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (b, c, q2)); }
fn n1289(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (b, r, q2)); }
fn n1290(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (c, a, q2)); }
fn n1291(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (c, b, q2)); }
fn n1292(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (c, r, q2)); }
fn n1293(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (r, a, q2)); }
fn n1294(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (r, b, q2)); }
fn n1295(s: &mut Net) { connect_states!(s, (c, b, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (r, b, q1), (r, c, q2)); }
fn n1296(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (a, b, q2)); }
fn n1297(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (a, c, q2)); }
fn n1298(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (a, r, q2)); }
fn n1299(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (b, a, q2)); }
fn n1300(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (b, c, q2)); }
fn n1301(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (b, r, q2)); }
fn n1302(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (c, a, q2)); }
fn n1303(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (c, b, q2)); }
fn n1304(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (c, r, q2)); }
fn n1305(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (r, a, q2)); }
fn n1306(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (r, b, q2)); }
fn n1307(s: &mut Net) { connect_states!(s, (c, b, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (c, b, q0), (r, c, q1), (r, c, q2)); }
fn n1308(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (a, b, q2)); }
fn n1309(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (a, c, q2)); }
fn n1310(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (a, r, q2)); }
fn n1311(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (b, a, q2)); }
fn n1312(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (b, c, q2)); }
fn n1313(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (b, r, q2)); }
fn n1314(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (c, a, q2)); }
fn n1315(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (c, b, q2)); }
fn n1316(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (c, r, q2)); }
fn n1317(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (r, a, q2)); }
fn n1318(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (r, b, q2)); }
fn n1319(s: &mut Net) { connect_states!(s, (c, r, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (a, b, q1), (r, c, q2)); }
fn n1320(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (a, b, q2)); }
fn n1321(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (a, c, q2)); }
fn n1322(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (a, r, q2)); }
fn n1323(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (b, a, q2)); }
fn n1324(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (b, c, q2)); }
fn n1325(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (b, r, q2)); }
fn n1326(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (c, a, q2)); }
fn n1327(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (c, b, q2)); }
fn n1328(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (c, r, q2)); }
fn n1329(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (r, a, q2)); }
fn n1330(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (r, b, q2)); }
fn n1331(s: &mut Net) { connect_states!(s, (c, r, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (a, c, q1), (r, c, q2)); }
fn n1332(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (a, b, q2)); }
fn n1333(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (a, c, q2)); }
fn n1334(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (a, r, q2)); }
fn n1335(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (b, a, q2)); }
fn n1336(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (b, c, q2)); }
fn n1337(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (b, r, q2)); }
fn n1338(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (c, a, q2)); }
fn n1339(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (c, b, q2)); }
fn n1340(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (c, r, q2)); }
fn n1341(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (r, a, q2)); }
fn n1342(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (r, b, q2)); }
fn n1343(s: &mut Net) { connect_states!(s, (c, r, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (a, r, q1), (r, c, q2)); }
fn n1344(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (a, b, q2)); }
fn n1345(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (a, c, q2)); }
fn n1346(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (a, r, q2)); }
fn n1347(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (b, a, q2)); }
fn n1348(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (b, c, q2)); }
fn n1349(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (b, r, q2)); }
fn n1350(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (c, a, q2)); }
fn n1351(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (c, b, q2)); }
fn n1352(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (c, r, q2)); }
fn n1353(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (r, a, q2)); }
fn n1354(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (r, b, q2)); }
fn n1355(s: &mut Net) { connect_states!(s, (c, r, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (b, a, q1), (r, c, q2)); }
fn n1356(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (a, b, q2)); }
fn n1357(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (a, c, q2)); }
fn n1358(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (a, r, q2)); }
fn n1359(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (b, a, q2)); }
fn n1360(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (b, c, q2)); }
fn n1361(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (b, r, q2)); }
fn n1362(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (c, a, q2)); }
fn n1363(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (c, b, q2)); }
fn n1364(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (c, r, q2)); }
fn n1365(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (r, a, q2)); }
fn n1366(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (r, b, q2)); }
fn n1367(s: &mut Net) { connect_states!(s, (c, r, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (b, c, q1), (r, c, q2)); }
fn n1368(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (a, b, q2)); }
fn n1369(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (a, c, q2)); }
fn n1370(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (a, r, q2)); }
fn n1371(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (b, a, q2)); }
fn n1372(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (b, c, q2)); }
fn n1373(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (b, r, q2)); }
fn n1374(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (c, a, q2)); }
fn n1375(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (c, b, q2)); }
fn n1376(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (c, r, q2)); }
fn n1377(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (r, a, q2)); }
fn n1378(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (r, b, q2)); }
fn n1379(s: &mut Net) { connect_states!(s, (c, r, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (b, r, q1), (r, c, q2)); }
fn n1380(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (a, b, q2)); }
fn n1381(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (a, c, q2)); }
fn n1382(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (a, r, q2)); }
fn n1383(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (b, a, q2)); }
fn n1384(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (b, c, q2)); }
fn n1385(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (b, r, q2)); }
fn n1386(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (c, a, q2)); }
fn n1387(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (c, b, q2)); }
fn n1388(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (c, r, q2)); }
fn n1389(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (r, a, q2)); }
fn n1390(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (r, b, q2)); }
fn n1391(s: &mut Net) { connect_states!(s, (c, r, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (c, a, q1), (r, c, q2)); }
fn n1392(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (a, b, q2)); }
fn n1393(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (a, c, q2)); }
fn n1394(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (a, r, q2)); }
fn n1395(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (b, a, q2)); }
fn n1396(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (b, c, q2)); }
fn n1397(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (b, r, q2)); }
fn n1398(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (c, a, q2)); }
fn n1399(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (c, b, q2)); }
fn n1400(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (c, r, q2)); }
fn n1401(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (r, a, q2)); }
fn n1402(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (r, b, q2)); }
fn n1403(s: &mut Net) { connect_states!(s, (c, r, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (c, b, q1), (r, c, q2)); }
fn n1404(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (a, b, q2)); }
fn n1405(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (a, c, q2)); }
fn n1406(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (a, r, q2)); }
fn n1407(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (b, a, q2)); }
fn n1408(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (b, c, q2)); }
fn n1409(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (b, r, q2)); }
fn n1410(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (c, a, q2)); }
fn n1411(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (c, b, q2)); }
fn n1412(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (c, r, q2)); }
fn n1413(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (r, a, q2)); }
fn n1414(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (r, b, q2)); }
fn n1415(s: &mut Net) { connect_states!(s, (c, r, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (c, r, q1), (r, c, q2)); }
fn n1416(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (a, b, q2)); }
fn n1417(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (a, c, q2)); }
fn n1418(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (a, r, q2)); }
fn n1419(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (b, a, q2)); }
fn n1420(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (b, c, q2)); }
fn n1421(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (b, r, q2)); }
fn n1422(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (c, a, q2)); }
fn n1423(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (c, b, q2)); }
fn n1424(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (c, r, q2)); }
fn n1425(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (r, a, q2)); }
fn n1426(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (r, b, q2)); }
fn n1427(s: &mut Net) { connect_states!(s, (c, r, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (r, a, q1), (r, c, q2)); }
fn n1428(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (a, b, q2)); }
fn n1429(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (a, c, q2)); }
fn n1430(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (a, r, q2)); }
fn n1431(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (b, a, q2)); }
fn n1432(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (b, c, q2)); }
fn n1433(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (b, r, q2)); }
fn n1434(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (c, a, q2)); }
fn n1435(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (c, b, q2)); }
fn n1436(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (c, r, q2)); }
fn n1437(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (r, a, q2)); }
fn n1438(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (r, b, q2)); }
fn n1439(s: &mut Net) { connect_states!(s, (c, r, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (r, b, q1), (r, c, q2)); }
fn n1440(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (a, b, q2)); }
fn n1441(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (a, c, q2)); }
fn n1442(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (a, r, q2)); }
fn n1443(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (b, a, q2)); }
fn n1444(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (b, c, q2)); }
fn n1445(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (b, r, q2)); }
fn n1446(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (c, a, q2)); }
fn n1447(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (c, b, q2)); }
fn n1448(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (c, r, q2)); }
fn n1449(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (r, a, q2)); }
fn n1450(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (r, b, q2)); }
fn n1451(s: &mut Net) { connect_states!(s, (c, r, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (c, r, q0), (r, c, q1), (r, c, q2)); }
fn n1452(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (a, b, q2)); }
fn n1453(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (a, c, q2)); }
fn n1454(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (a, r, q2)); }
fn n1455(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (b, a, q2)); }
fn n1456(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (b, c, q2)); }
fn n1457(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (b, r, q2)); }
fn n1458(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (c, a, q2)); }
fn n1459(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (c, b, q2)); }
fn n1460(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (c, r, q2)); }
fn n1461(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (r, a, q2)); }
fn n1462(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (r, b, q2)); }
fn n1463(s: &mut Net) { connect_states!(s, (r, a, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (a, b, q1), (r, c, q2)); }
fn n1464(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (a, b, q2)); }
fn n1465(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (a, c, q2)); }
fn n1466(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (a, r, q2)); }
fn n1467(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (b, a, q2)); }
fn n1468(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (b, c, q2)); }
fn n1469(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (b, r, q2)); }
fn n1470(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (c, a, q2)); }
fn n1471(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (c, b, q2)); }
fn n1472(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (c, r, q2)); }
fn n1473(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (r, a, q2)); }
fn n1474(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (r, b, q2)); }
fn n1475(s: &mut Net) { connect_states!(s, (r, a, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (a, c, q1), (r, c, q2)); }
fn n1476(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (a, b, q2)); }
fn n1477(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (a, c, q2)); }
fn n1478(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (a, r, q2)); }
fn n1479(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (b, a, q2)); }
fn n1480(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (b, c, q2)); }
fn n1481(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (b, r, q2)); }
fn n1482(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (c, a, q2)); }
fn n1483(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (c, b, q2)); }
fn n1484(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (c, r, q2)); }
fn n1485(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (r, a, q2)); }
fn n1486(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (r, b, q2)); }
fn n1487(s: &mut Net) { connect_states!(s, (r, a, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (a, r, q1), (r, c, q2)); }
fn n1488(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (a, b, q2)); }
fn n1489(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (a, c, q2)); }
fn n1490(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (a, r, q2)); }
fn n1491(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (b, a, q2)); }
fn n1492(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (b, c, q2)); }
fn n1493(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (b, r, q2)); }
fn n1494(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (c, a, q2)); }
fn n1495(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (c, b, q2)); }
fn n1496(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (c, r, q2)); }
fn n1497(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (r, a, q2)); }
fn n1498(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (r, b, q2)); }
fn n1499(s: &mut Net) { connect_states!(s, (r, a, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (b, a, q1), (r, c, q2)); }
fn n1500(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (a, b, q2)); }
fn n1501(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (a, c, q2)); }
fn n1502(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (a, r, q2)); }
fn n1503(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (b, a, q2)); }
fn n1504(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (b, c, q2)); }
fn n1505(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (b, r, q2)); }
fn n1506(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (c, a, q2)); }
fn n1507(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (c, b, q2)); }
fn n1508(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (c, r, q2)); }
fn n1509(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (r, a, q2)); }
fn n1510(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (r, b, q2)); }
fn n1511(s: &mut Net) { connect_states!(s, (r, a, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (b, c, q1), (r, c, q2)); }
fn n1512(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (a, b, q2)); }
fn n1513(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (a, c, q2)); }
fn n1514(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (a, r, q2)); }
fn n1515(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (b, a, q2)); }
fn n1516(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (b, c, q2)); }
fn n1517(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (b, r, q2)); }
fn n1518(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (c, a, q2)); }
fn n1519(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (c, b, q2)); }
fn n1520(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (c, r, q2)); }
fn n1521(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (r, a, q2)); }
fn n1522(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (r, b, q2)); }
fn n1523(s: &mut Net) { connect_states!(s, (r, a, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (b, r, q1), (r, c, q2)); }
fn n1524(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (a, b, q2)); }
fn n1525(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (a, c, q2)); }
fn n1526(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (a, r, q2)); }
fn n1527(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (b, a, q2)); }
fn n1528(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (b, c, q2)); }
fn n1529(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (b, r, q2)); }
fn n1530(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (c, a, q2)); }
fn n1531(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (c, b, q2)); }
fn n1532(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (c, r, q2)); }
fn n1533(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (r, a, q2)); }
fn n1534(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (r, b, q2)); }
fn n1535(s: &mut Net) { connect_states!(s, (r, a, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (c, a, q1), (r, c, q2)); }
fn n1536(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (a, b, q2)); }
fn n1537(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (a, c, q2)); }
fn n1538(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (a, r, q2)); }
fn n1539(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (b, a, q2)); }
fn n1540(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (b, c, q2)); }
fn n1541(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (b, r, q2)); }
fn n1542(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (c, a, q2)); }
fn n1543(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (c, b, q2)); }
fn n1544(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (c, r, q2)); }
fn n1545(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (r, a, q2)); }
fn n1546(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (r, b, q2)); }
fn n1547(s: &mut Net) { connect_states!(s, (r, a, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (c, b, q1), (r, c, q2)); }
fn n1548(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (a, b, q2)); }
fn n1549(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (a, c, q2)); }
fn n1550(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (a, r, q2)); }
fn n1551(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (b, a, q2)); }
fn n1552(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (b, c, q2)); }
fn n1553(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (b, r, q2)); }
fn n1554(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (c, a, q2)); }
fn n1555(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (c, b, q2)); }
fn n1556(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (c, r, q2)); }
fn n1557(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (r, a, q2)); }
fn n1558(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (r, b, q2)); }
fn n1559(s: &mut Net) { connect_states!(s, (r, a, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (c, r, q1), (r, c, q2)); }
fn n1560(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (a, b, q2)); }
fn n1561(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (a, c, q2)); }
fn n1562(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (a, r, q2)); }
fn n1563(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (b, a, q2)); }
fn n1564(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (b, c, q2)); }
fn n1565(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (b, r, q2)); }
fn n1566(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (c, a, q2)); }
fn n1567(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (c, b, q2)); }
fn n1568(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (c, r, q2)); }
fn n1569(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (r, a, q2)); }
fn n1570(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (r, b, q2)); }
fn n1571(s: &mut Net) { connect_states!(s, (r, a, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (r, a, q1), (r, c, q2)); }
fn n1572(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (a, b, q2)); }
fn n1573(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (a, c, q2)); }
fn n1574(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (a, r, q2)); }
fn n1575(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (b, a, q2)); }
fn n1576(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (b, c, q2)); }
fn n1577(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (b, r, q2)); }
fn n1578(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (c, a, q2)); }
fn n1579(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (c, b, q2)); }
fn n1580(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (c, r, q2)); }
fn n1581(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (r, a, q2)); }
fn n1582(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (r, b, q2)); }
fn n1583(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (r, b, q1), (r, c, q2)); }
fn n1584(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (a, b, q2)); }
fn n1585(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (a, c, q2)); }
fn n1586(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (a, r, q2)); }
fn n1587(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (b, a, q2)); }
fn n1588(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (b, c, q2)); }
fn n1589(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (b, r, q2)); }
fn n1590(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (c, a, q2)); }
fn n1591(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (c, b, q2)); }
fn n1592(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (c, r, q2)); }
fn n1593(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (r, a, q2)); }
fn n1594(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (r, b, q2)); }
fn n1595(s: &mut Net) { connect_states!(s, (r, a, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (r, a, q0), (r, c, q1), (r, c, q2)); }
fn n1596(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (a, b, q2)); }
fn n1597(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (a, c, q2)); }
fn n1598(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (a, r, q2)); }
fn n1599(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (b, a, q2)); }
fn n1600(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (b, c, q2)); }
fn n1601(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (b, r, q2)); }
fn n1602(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (c, a, q2)); }
fn n1603(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (c, b, q2)); }
fn n1604(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (c, r, q2)); }
fn n1605(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (r, a, q2)); }
fn n1606(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (r, b, q2)); }
fn n1607(s: &mut Net) { connect_states!(s, (r, b, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (a, b, q1), (r, c, q2)); }
fn n1608(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (a, b, q2)); }
fn n1609(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (a, c, q2)); }
fn n1610(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (a, r, q2)); }
fn n1611(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (b, a, q2)); }
fn n1612(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (b, c, q2)); }
fn n1613(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (b, r, q2)); }
fn n1614(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (c, a, q2)); }
fn n1615(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (c, b, q2)); }
fn n1616(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (c, r, q2)); }
fn n1617(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (r, a, q2)); }
fn n1618(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (r, b, q2)); }
fn n1619(s: &mut Net) { connect_states!(s, (r, b, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (a, c, q1), (r, c, q2)); }
fn n1620(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (a, b, q2)); }
fn n1621(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (a, c, q2)); }
fn n1622(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (a, r, q2)); }
fn n1623(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (b, a, q2)); }
fn n1624(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (b, c, q2)); }
fn n1625(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (b, r, q2)); }
fn n1626(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (c, a, q2)); }
fn n1627(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (c, b, q2)); }
fn n1628(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (c, r, q2)); }
fn n1629(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (r, a, q2)); }
fn n1630(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (r, b, q2)); }
fn n1631(s: &mut Net) { connect_states!(s, (r, b, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (a, r, q1), (r, c, q2)); }
fn n1632(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (a, b, q2)); }
fn n1633(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (a, c, q2)); }
fn n1634(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (a, r, q2)); }
fn n1635(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (b, a, q2)); }
fn n1636(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (b, c, q2)); }
fn n1637(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (b, r, q2)); }
fn n1638(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (c, a, q2)); }
fn n1639(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (c, b, q2)); }
fn n1640(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (c, r, q2)); }
fn n1641(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (r, a, q2)); }
fn n1642(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (r, b, q2)); }
fn n1643(s: &mut Net) { connect_states!(s, (r, b, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (b, a, q1), (r, c, q2)); }
fn n1644(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (a, b, q2)); }
fn n1645(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (a, c, q2)); }
fn n1646(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (a, r, q2)); }
fn n1647(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (b, a, q2)); }
fn n1648(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (b, c, q2)); }
fn n1649(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (b, r, q2)); }
fn n1650(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (c, a, q2)); }
fn n1651(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (c, b, q2)); }
fn n1652(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (c, r, q2)); }
fn n1653(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (r, a, q2)); }
fn n1654(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (r, b, q2)); }
fn n1655(s: &mut Net) { connect_states!(s, (r, b, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (b, c, q1), (r, c, q2)); }
fn n1656(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (a, b, q2)); }
fn n1657(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (a, c, q2)); }
fn n1658(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (a, r, q2)); }
fn n1659(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (b, a, q2)); }
fn n1660(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (b, c, q2)); }
fn n1661(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (b, r, q2)); }
fn n1662(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (c, a, q2)); }
fn n1663(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (c, b, q2)); }
fn n1664(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (c, r, q2)); }
fn n1665(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (r, a, q2)); }
fn n1666(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (r, b, q2)); }
fn n1667(s: &mut Net) { connect_states!(s, (r, b, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (b, r, q1), (r, c, q2)); }
fn n1668(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (a, b, q2)); }
fn n1669(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (a, c, q2)); }
fn n1670(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (a, r, q2)); }
fn n1671(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (b, a, q2)); }
fn n1672(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (b, c, q2)); }
fn n1673(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (b, r, q2)); }
fn n1674(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (c, a, q2)); }
fn n1675(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (c, b, q2)); }
fn n1676(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (c, r, q2)); }
fn n1677(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (r, a, q2)); }
fn n1678(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (r, b, q2)); }
fn n1679(s: &mut Net) { connect_states!(s, (r, b, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (c, a, q1), (r, c, q2)); }
fn n1680(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (a, b, q2)); }
fn n1681(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (a, c, q2)); }
fn n1682(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (a, r, q2)); }
fn n1683(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (b, a, q2)); }
fn n1684(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (b, c, q2)); }
fn n1685(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (b, r, q2)); }
fn n1686(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (c, a, q2)); }
fn n1687(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (c, b, q2)); }
fn n1688(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (c, r, q2)); }
fn n1689(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (r, a, q2)); }
fn n1690(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (r, b, q2)); }
fn n1691(s: &mut Net) { connect_states!(s, (r, b, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (c, b, q1), (r, c, q2)); }
fn n1692(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (a, b, q2)); }
fn n1693(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (a, c, q2)); }
fn n1694(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (a, r, q2)); }
fn n1695(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (b, a, q2)); }
fn n1696(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (b, c, q2)); }
fn n1697(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (b, r, q2)); }
fn n1698(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (c, a, q2)); }
fn n1699(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (c, b, q2)); }
fn n1700(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (c, r, q2)); }
fn n1701(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (r, a, q2)); }
fn n1702(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (r, b, q2)); }
fn n1703(s: &mut Net) { connect_states!(s, (r, b, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (c, r, q1), (r, c, q2)); }
fn n1704(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (a, b, q2)); }
fn n1705(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (a, c, q2)); }
fn n1706(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (a, r, q2)); }
fn n1707(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (b, a, q2)); }
fn n1708(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (b, c, q2)); }
fn n1709(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (b, r, q2)); }
fn n1710(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (c, a, q2)); }
fn n1711(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (c, b, q2)); }
fn n1712(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (c, r, q2)); }
fn n1713(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (r, a, q2)); }
fn n1714(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (r, b, q2)); }
fn n1715(s: &mut Net) { connect_states!(s, (r, b, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (r, a, q1), (r, c, q2)); }
fn n1716(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (a, b, q2)); }
fn n1717(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (a, c, q2)); }
fn n1718(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (a, r, q2)); }
fn n1719(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (b, a, q2)); }
fn n1720(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (b, c, q2)); }
fn n1721(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (b, r, q2)); }
fn n1722(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (c, a, q2)); }
fn n1723(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (c, b, q2)); }
fn n1724(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (c, r, q2)); }
fn n1725(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (r, a, q2)); }
fn n1726(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (r, b, q2)); }
fn n1727(s: &mut Net) { connect_states!(s, (r, b, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (r, b, q1), (r, c, q2)); }
fn n1728(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (a, b, q2)); }
fn n1729(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (a, c, q2)); }
fn n1730(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (a, r, q2)); }
fn n1731(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (b, a, q2)); }
fn n1732(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (b, c, q2)); }
fn n1733(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (b, r, q2)); }
fn n1734(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (c, a, q2)); }
fn n1735(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (c, b, q2)); }
fn n1736(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (c, r, q2)); }
fn n1737(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (r, a, q2)); }
fn n1738(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (r, b, q2)); }
fn n1739(s: &mut Net) { connect_states!(s, (r, b, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (r, b, q0), (r, c, q1), (r, c, q2)); }
fn n1740(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (a, b, q2)); }
fn n1741(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (a, c, q2)); }
fn n1742(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (a, r, q2)); }
fn n1743(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (b, a, q2)); }
fn n1744(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (b, c, q2)); }
fn n1745(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (b, r, q2)); }
fn n1746(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (c, a, q2)); }
fn n1747(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (c, b, q2)); }
fn n1748(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (c, r, q2)); }
fn n1749(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (r, a, q2)); }
fn n1750(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (r, b, q2)); }
fn n1751(s: &mut Net) { connect_states!(s, (r, c, q0), (a, b, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (a, b, q1), (r, c, q2)); }
fn n1752(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (a, b, q2)); }
fn n1753(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (a, c, q2)); }
fn n1754(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (a, r, q2)); }
fn n1755(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (b, a, q2)); }
fn n1756(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (b, c, q2)); }
fn n1757(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (b, r, q2)); }
fn n1758(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (c, a, q2)); }
fn n1759(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (c, b, q2)); }
fn n1760(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (c, r, q2)); }
fn n1761(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (r, a, q2)); }
fn n1762(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (r, b, q2)); }
fn n1763(s: &mut Net) { connect_states!(s, (r, c, q0), (a, c, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (a, c, q1), (r, c, q2)); }
fn n1764(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (a, b, q2)); }
fn n1765(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (a, c, q2)); }
fn n1766(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (a, r, q2)); }
fn n1767(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (b, a, q2)); }
fn n1768(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (b, c, q2)); }
fn n1769(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (b, r, q2)); }
fn n1770(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (c, a, q2)); }
fn n1771(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (c, b, q2)); }
fn n1772(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (c, r, q2)); }
fn n1773(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (r, a, q2)); }
fn n1774(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (r, b, q2)); }
fn n1775(s: &mut Net) { connect_states!(s, (r, c, q0), (a, r, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (a, r, q1), (r, c, q2)); }
fn n1776(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (a, b, q2)); }
fn n1777(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (a, c, q2)); }
fn n1778(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (a, r, q2)); }
fn n1779(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (b, a, q2)); }
fn n1780(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (b, c, q2)); }
fn n1781(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (b, r, q2)); }
fn n1782(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (c, a, q2)); }
fn n1783(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (c, b, q2)); }
fn n1784(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (c, r, q2)); }
fn n1785(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (r, a, q2)); }
fn n1786(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (r, b, q2)); }
fn n1787(s: &mut Net) { connect_states!(s, (r, c, q0), (b, a, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (b, a, q1), (r, c, q2)); }
fn n1788(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (a, b, q2)); }
fn n1789(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (a, c, q2)); }
fn n1790(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (a, r, q2)); }
fn n1791(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (b, a, q2)); }
fn n1792(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (b, c, q2)); }
fn n1793(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (b, r, q2)); }
fn n1794(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (c, a, q2)); }
fn n1795(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (c, b, q2)); }
fn n1796(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (c, r, q2)); }
fn n1797(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (r, a, q2)); }
fn n1798(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (r, b, q2)); }
fn n1799(s: &mut Net) { connect_states!(s, (r, c, q0), (b, c, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (b, c, q1), (r, c, q2)); }
fn n1800(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (a, b, q2)); }
fn n1801(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (a, c, q2)); }
fn n1802(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (a, r, q2)); }
fn n1803(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (b, a, q2)); }
fn n1804(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (b, c, q2)); }
fn n1805(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (b, r, q2)); }
fn n1806(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (c, a, q2)); }
fn n1807(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (c, b, q2)); }
fn n1808(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (c, r, q2)); }
fn n1809(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (r, a, q2)); }
fn n1810(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (r, b, q2)); }
fn n1811(s: &mut Net) { connect_states!(s, (r, c, q0), (b, r, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (b, r, q1), (r, c, q2)); }
fn n1812(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (a, b, q2)); }
fn n1813(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (a, c, q2)); }
fn n1814(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (a, r, q2)); }
fn n1815(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (b, a, q2)); }
fn n1816(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (b, c, q2)); }
fn n1817(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (b, r, q2)); }
fn n1818(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (c, a, q2)); }
fn n1819(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (c, b, q2)); }
fn n1820(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (c, r, q2)); }
fn n1821(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (r, a, q2)); }
fn n1822(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (r, b, q2)); }
fn n1823(s: &mut Net) { connect_states!(s, (r, c, q0), (c, a, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (c, a, q1), (r, c, q2)); }
fn n1824(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (a, b, q2)); }
fn n1825(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (a, c, q2)); }
fn n1826(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (a, r, q2)); }
fn n1827(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (b, a, q2)); }
fn n1828(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (b, c, q2)); }
fn n1829(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (b, r, q2)); }
fn n1830(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (c, a, q2)); }
fn n1831(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (c, b, q2)); }
fn n1832(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (c, r, q2)); }
fn n1833(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (r, a, q2)); }
fn n1834(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (r, b, q2)); }
fn n1835(s: &mut Net) { connect_states!(s, (r, c, q0), (c, b, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (c, b, q1), (r, c, q2)); }
fn n1836(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (a, b, q2)); }
fn n1837(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (a, c, q2)); }
fn n1838(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (a, r, q2)); }
fn n1839(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (b, a, q2)); }
fn n1840(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (b, c, q2)); }
fn n1841(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (b, r, q2)); }
fn n1842(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (c, a, q2)); }
fn n1843(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (c, b, q2)); }
fn n1844(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (c, r, q2)); }
fn n1845(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (r, a, q2)); }
fn n1846(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (r, b, q2)); }
fn n1847(s: &mut Net) { connect_states!(s, (r, c, q0), (c, r, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (c, r, q1), (r, c, q2)); }
fn n1848(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (a, b, q2)); }
fn n1849(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (a, c, q2)); }
fn n1850(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (a, r, q2)); }
fn n1851(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (b, a, q2)); }
fn n1852(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (b, c, q2)); }
fn n1853(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (b, r, q2)); }
fn n1854(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (c, a, q2)); }
fn n1855(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (c, b, q2)); }
fn n1856(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (c, r, q2)); }
fn n1857(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (r, a, q2)); }
fn n1858(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (r, b, q2)); }
fn n1859(s: &mut Net) { connect_states!(s, (r, c, q0), (r, a, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (r, a, q1), (r, c, q2)); }
fn n1860(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (a, b, q2)); }
fn n1861(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (a, c, q2)); }
fn n1862(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (a, r, q2)); }
fn n1863(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (b, a, q2)); }
fn n1864(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (b, c, q2)); }
fn n1865(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (b, r, q2)); }
fn n1866(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (c, a, q2)); }
fn n1867(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (c, b, q2)); }
fn n1868(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (c, r, q2)); }
fn n1869(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (r, a, q2)); }
fn n1870(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (r, b, q2)); }
fn n1871(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (r, b, q1), (r, c, q2)); }
fn n1872(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (a, b, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (a, b, q2)); }
fn n1873(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (a, c, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (a, c, q2)); }
fn n1874(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (a, r, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (a, r, q2)); }
fn n1875(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (b, a, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (b, a, q2)); }
fn n1876(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (b, c, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (b, c, q2)); }
fn n1877(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (b, r, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (b, r, q2)); }
fn n1878(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (c, a, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (c, a, q2)); }
fn n1879(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (c, b, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (c, b, q2)); }
fn n1880(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (c, r, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (c, r, q2)); }
fn n1881(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (r, a, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (r, a, q2)); }
fn n1882(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (r, b, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (r, b, q2)); }
fn n1883(s: &mut Net) { connect_states!(s, (r, c, q0), (r, c, q1), (r, c, q2)); update_derivs!(s, (r, c, q0), (r, c, q1), (r, c, q2)); }
fn n1884(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (c, r, q2), (r, a, q3)); update_derivs!(s, (a, b, q0), (b, c, q1), (c, r, q2), (r, a, q3)); }
fn n1885(s: &mut Net) { connect_states!(s, (b, a, q0), (b, a, q1), (a, b, q2), (b, a, q3)); update_derivs!(s, (b, a, q0), (b, a, q1), (a, b, q2), (b, a, q3)); }
fn n1886(s: &mut Net) { connect_states!(s, (r, a, q0), (r, b, q1), (r, c, q2), (a, b, q3), (b, c, q4), (c, a, q5)); update_derivs!(s, (r, a, q0), (r, b, q1), (r, c, q2), (a, b, q3), (b, c, q4), (c, a, q5)); }
fn n1887(s: &mut Net) { connect_states!(s, (c, a, q0), (a, c, q1), (b, r, q2), (r, b, q3), (c, b, q4)); update_derivs!(s, (c, a, q0), (a, c, q1), (b, r, q2), (r, b, q3), (c, b, q4)); }
fn n1888(s: &mut Net) { connect_states!(s, (a, b, q0), (a, c, q1), (a, r, q2), (b, a, q3), (b, c, q4), (b, r, q5), (c, a, q6), (c, b, q7), (c, r, q8), (r, a, q9), (r, b, q10), (r, c, q11)); update_derivs!(s, (a, b, q0), (a, c, q1), (a, r, q2), (b, a, q3), (b, c, q4), (b, r, q5), (c, a, q6), (c, b, q7), (c, r, q8), (r, a, q9), (r, b, q10), (r, c, q11)); }
fn n1889(s: &mut Net) { connect_states!(s, (a, b, q0), (b, c, q1), (c, r, q2), (r, a, q3), (a, c, q4), (b, r, q5), (c, a, q6), (r, b, q7), (a, r, q8), (b, a, q9), (c, b, q10), (r, c, q11)); update_derivs!(s, (a, b, q0), (b, c, q1), (c, r, q2), (r, a, q3), (a, c, q4), (b, r, q5), (c, a, q6), (r, b, q7), (a, r, q8), (b, a, q9), (c, b, q10), (r, c, q11)); }
fn n1890(s: &mut Net) { connect_states!(s, (a, b, q0), (a, b, q1), (a, b, q2), (a, b, q3), (a, b, q4), (a, b, q5), (a, b, q6), (a, b, q7), (a, b, q8)); update_derivs!(s, (a, b, q0), (a, b, q1), (a, b, q2), (a, b, q3), (a, b, q4), (a, b, q5), (a, b, q6), (a, b, q7), (a, b, q8)); }
fn n1891(s: &mut Net) { connect_states!(s, (r, c, q0), (r, b, q1), (r, a, q2), (c, r, q3), (c, b, q4), (c, a, q5), (b, r, q6), (b, c, q7), (b, a, q8), (a, r, q9), (a, c, q10), (a, b, q11), (b, a, q12), (c, r, q13)); update_derivs!(s, (r, c, q0), (r, b, q1), (r, a, q2), (c, r, q3), (c, b, q4), (c, a, q5), (b, r, q6), (b, c, q7), (b, a, q8), (a, r, q9), (a, c, q10), (a, b, q11), (b, a, q12), (c, r, q13)); }
pub static NETS: &[(fn(&mut Net), &[(usize, usize)])] = &[
(n0, &[(0, 1)]),
(n1, &[(0, 2)]),
(n2, &[(0, 3)]),
(n3, &[(1, 0)]),
(n4, &[(1, 2)]),
(n5, &[(1, 3)]),
(n6, &[(2, 0)]),
(n7, &[(2, 1)]),
(n8, &[(2, 3)]),
(n9, &[(3, 0)]),
(n10, &[(3, 1)]),
(n11, &[(3, 2)]),
(n12, &[(0, 1), (0, 1)]),
(n13, &[(0, 1), (0, 2)]),
(n14, &[(0, 1), (0, 3)]),
(n15, &[(0, 1), (1, 0)]),
(n16, &[(0, 1), (1, 2)]),
(n17, &[(0, 1), (1, 3)]),
(n18, &[(0, 1), (2, 0)]),
(n19, &[(0, 1), (2, 1)]),
(n20, &[(0, 1), (2, 3)]),
(n21, &[(0, 1), (3, 0)]),
(n22, &[(0, 1), (3, 1)]),
(n23, &[(0, 1), (3, 2)]),
(n24, &[(0, 2), (0, 1)]),
(n25, &[(0, 2), (0, 2)]),
(n26, &[(0, 2), (0, 3)]),
(n27, &[(0, 2), (1, 0)]),
(n28, &[(0, 2), (1, 2)]),
(n29, &[(0, 2), (1, 3)]),
(n30, &[(0, 2), (2, 0)]),
(n31, &[(0, 2), (2, 1)]),
(n32, &[(0, 2), (2, 3)]),
(n33, &[(0, 2), (3, 0)]),
(n34, &[(0, 2), (3, 1)]),
(n35, &[(0, 2), (3, 2)]),
(n36, &[(0, 3), (0, 1)]),
(n37, &[(0, 3), (0, 2)]),
(n38, &[(0, 3), (0, 3)]),
(n39, &[(0, 3), (1, 0)]),
(n40, &[(0, 3), (1, 2)]),
(n41, &[(0, 3), (1, 3)]),
(n42, &[(0, 3), (2, 0)]),
(n43, &[(0, 3), (2, 1)]),
(n44, &[(0, 3), (2, 3)]),
(n45, &[(0, 3), (3, 0)]),
(n46, &[(0, 3), (3, 1)]),
(n47, &[(0, 3), (3, 2)]),
(n48, &[(1, 0), (0, 1)]),
(n49, &[(1, 0), (0, 2)]),
(n50, &[(1, 0), (0, 3)]),
(n51, &[(1, 0), (1, 0)]),
(n52, &[(1, 0), (1, 2)]),
(n53, &[(1, 0), (1, 3)]),
(n54, &[(1, 0), (2, 0)]),
(n55, &[(1, 0), (2, 1)]),
(n56, &[(1, 0), (2, 3)]),
(n57, &[(1, 0), (3, 0)]),
(n58, &[(1, 0), (3, 1)]),
(n59, &[(1, 0), (3, 2)]),
(n60, &[(1, 2), (0, 1)]),
(n61, &[(1, 2), (0, 2)]),
(n62, &[(1, 2), (0, 3)]),
(n63, &[(1, 2), (1, 0)]),
(n64, &[(1, 2), (1, 2)]),
(n65, &[(1, 2), (1, 3)]),
(n66, &[(1, 2), (2, 0)]),
(n67, &[(1, 2), (2, 1)]),
(n68, &[(1, 2), (2, 3)]),
(n69, &[(1, 2), (3, 0)]),
(n70, &[(1, 2), (3, 1)]),
(n71, &[(1, 2), (3, 2)]),
(n72, &[(1, 3), (0, 1)]),
(n73, &[(1, 3), (0, 2)]),
(n74, &[(1, 3), (0, 3)]),
(n75, &[(1, 3), (1, 0)]),
(n76, &[(1, 3), (1, 2)]),
(n77, &[(1, 3), (1, 3)]),
(n78, &[(1, 3), (2, 0)]),
(n79, &[(1, 3), (2, 1)]),
(n80, &[(1, 3), (2, 3)]),
(n81, &[(1, 3), (3, 0)]),
(n82, &[(1, 3), (3, 1)]),
(n83, &[(1, 3), (3, 2)]),
(n84, &[(2, 0), (0, 1)]),
(n85, &[(2, 0), (0, 2)]),
(n86, &[(2, 0), (0, 3)]),
(n87, &[(2, 0), (1, 0)]),
(n88, &[(2, 0), (1, 2)]),
(n89, &[(2, 0), (1, 3)]),
(n90, &[(2, 0), (2, 0)]),
(n91, &[(2, 0), (2, 1)]),
(n92, &[(2, 0), (2, 3)]),
(n93, &[(2, 0), (3, 0)]),
(n94, &[(2, 0), (3, 1)]),
(n95, &[(2, 0), (3, 2)]),
(n96, &[(2, 1), (0, 1)]),
(n97, &[(2, 1), (0, 2)]),
(n98, &[(2, 1), (0, 3)]),
(n99, &[(2, 1), (1, 0)]),
(n100, &[(2, 1), (1, 2)]),
(n101, &[(2, 1), (1, 3)]),
(n102, &[(2, 1), (2, 0)]),
(n103, &[(2, 1), (2, 1)]),
(n104, &[(2, 1), (2, 3)]),
(n105, &[(2, 1), (3, 0)]),
(n106, &[(2, 1), (3, 1)]),
(n107, &[(2, 1), (3, 2)]),
(n108, &[(2, 3), (0, 1)]),
(n109, &[(2, 3), (0, 2)]),
(n110, &[(2, 3), (0, 3)]),
(n111, &[(2, 3), (1, 0)]),
(n112, &[(2, 3), (1, 2)]),
(n113, &[(2, 3), (1, 3)]),
(n114, &[(2, 3), (2, 0)]),
(n115, &[(2, 3), (2, 1)]),
(n116, &[(2, 3), (2, 3)]),
(n117, &[(2, 3), (3, 0)]),
(n118, &[(2, 3), (3, 1)]),
(n119, &[(2, 3), (3, 2)]),
(n120, &[(3, 0), (0, 1)]),
(n121, &[(3, 0), (0, 2)]),
(n122, &[(3, 0), (0, 3)]),
(n123, &[(3, 0), (1, 0)]),
(n124, &[(3, 0), (1, 2)]),
(n125, &[(3, 0), (1, 3)]),
(n126, &[(3, 0), (2, 0)]),
(n127, &[(3, 0), (2, 1)]),
(n128, &[(3, 0), (2, 3)]),
(n129, &[(3, 0), (3, 0)]),
(n130, &[(3, 0), (3, 1)]),
(n131, &[(3, 0), (3, 2)]),
(n132, &[(3, 1), (0, 1)]),
(n133, &[(3, 1), (0, 2)]),
(n134, &[(3, 1), (0, 3)]),
(n135, &[(3, 1), (1, 0)]),
(n136, &[(3, 1), (1, 2)]),
(n137, &[(3, 1), (1, 3)]),
(n138, &[(3, 1), (2, 0)]),
(n139, &[(3, 1), (2, 1)]),
(n140, &[(3, 1), (2, 3)]),
(n141, &[(3, 1), (3, 0)]),
(n142, &[(3, 1), (3, 1)]),
(n143, &[(3, 1), (3, 2)]),
(n144, &[(3, 2), (0, 1)]),
(n145, &[(3, 2), (0, 2)]),
(n146, &[(3, 2), (0, 3)]),
(n147, &[(3, 2), (1, 0)]),
(n148, &[(3, 2), (1, 2)]),
(n149, &[(3, 2), (1, 3)]),
(n150, &[(3, 2), (2, 0)]),
(n151, &[(3, 2), (2, 1)]),
(n152, &[(3, 2), (2, 3)]),
(n153, &[(3, 2), (3, 0)]),
(n154, &[(3, 2), (3, 1)]),
(n155, &[(3, 2), (3, 2)]),
(n156, &[(0, 1), (0, 1), (0, 1)]),
(n157, &[(0, 1), (0, 1), (0, 2)]),
(n158, &[(0, 1), (0, 1), (0, 3)]),
(n159, &[(0, 1), (0, 1), (1, 0)]),
(n160, &[(0, 1), (0, 1), (1, 2)]),
(n161, &[(0, 1), (0, 1), (1, 3)]),
(n162, &[(0, 1), (0, 1), (2, 0)]),
(n163, &[(0, 1), (0, 1), (2, 1)]),
(n164, &[(0, 1), (0, 1), (2, 3)]),
(n165, &[(0, 1), (0, 1), (3, 0)]),
(n166, &[(0, 1), (0, 1), (3, 1)]),
(n167, &[(0, 1), (0, 1), (3, 2)]),
(n168, &[(0, 1), (0, 2), (0, 1)]),
(n169, &[(0, 1), (0, 2), (0, 2)]),
(n170, &[(0, 1), (0, 2), (0, 3)]),
(n171, &[(0, 1), (0, 2), (1, 0)]),
(n172, &[(0, 1), (0, 2), (1, 2)]),
(n173, &[(0, 1), (0, 2), (1, 3)]),
(n174, &[(0, 1), (0, 2), (2, 0)]),
(n175, &[(0, 1), (0, 2), (2, 1)]),
(n176, &[(0, 1), (0, 2), (2, 3)]),
(n177, &[(0, 1), (0, 2), (3, 0)]),
(n178, &[(0, 1), (0, 2), (3, 1)]),
(n179, &[(0, 1), (0, 2), (3, 2)]),
(n180, &[(0, 1), (0, 3), (0, 1)]),
(n181, &[(0, 1), (0, 3), (0, 2)]),
(n182, &[(0, 1), (0, 3), (0, 3)]),
(n183, &[(0, 1), (0, 3), (1, 0)]),
(n184, &[(0, 1), (0, 3), (1, 2)]),
(n185, &[(0, 1), (0, 3), (1, 3)]),
(n186, &[(0, 1), (0, 3), (2, 0)]),
(n187, &[(0, 1), (0, 3), (2, 1)]),
(n188, &[(0, 1), (0, 3), (2, 3)]),
(n189, &[(0, 1), (0, 3), (3, 0)]),
(n190, &[(0, 1), (0, 3), (3, 1)]),
(n191, &[(0, 1), (0, 3), (3, 2)]),
(n192, &[(0, 1), (1, 0), (0, 1)]),
(n193, &[(0, 1), (1, 0), (0, 2)]),
(n194, &[(0, 1), (1, 0), (0, 3)]),
(n195, &[(0, 1), (1, 0), (1, 0)]),
(n196, &[(0, 1), (1, 0), (1, 2)]),
(n197, &[(0, 1), (1, 0), (1, 3)]),
(n198, &[(0, 1), (1, 0), (2, 0)]),
(n199, &[(0, 1), (1, 0), (2, 1)]),
(n200, &[(0, 1), (1, 0), (2, 3)]),
(n201, &[(0, 1), (1, 0), (3, 0)]),
(n202, &[(0, 1), (1, 0), (3, 1)]),
(n203, &[(0, 1), (1, 0), (3, 2)]),
(n204, &[(0, 1), (1, 2), (0, 1)]),
(n205, &[(0, 1), (1, 2), (0, 2)]),
(n206, &[(0, 1), (1, 2), (0, 3)]),
(n207, &[(0, 1), (1, 2), (1, 0)]),
(n208, &[(0, 1), (1, 2), (1, 2)]),
(n209, &[(0, 1), (1, 2), (1, 3)]),
(n210, &[(0, 1), (1, 2), (2, 0)]),
(n211, &[(0, 1), (1, 2), (2, 1)]),
(n212, &[(0, 1), (1, 2), (2, 3)]),
(n213, &[(0, 1), (1, 2), (3, 0)]),
(n214, &[(0, 1), (1, 2), (3, 1)]),
(n215, &[(0, 1), (1, 2), (3, 2)]),
(n216, &[(0, 1), (1, 3), (0, 1)]),
(n217, &[(0, 1), (1, 3), (0, 2)]),
(n218, &[(0, 1), (1, 3), (0, 3)]),
(n219, &[(0, 1), (1, 3), (1, 0)]),
(n220, &[(0, 1), (1, 3), (1, 2)]),
(n221, &[(0, 1), (1, 3), (1, 3)]),
(n222, &[(0, 1), (1, 3), (2, 0)]),
(n223, &[(0, 1), (1, 3), (2, 1)]),
(n224, &[(0, 1), (1, 3), (2, 3)]),
(n225, &[(0, 1), (1, 3), (3, 0)]),
(n226, &[(0, 1), (1, 3), (3, 1)]),
(n227, &[(0, 1), (1, 3), (3, 2)]),
(n228, &[(0, 1), (2, 0), (0, 1)]),
(n229, &[(0, 1), (2, 0), (0, 2)]),
(n230, &[(0, 1), (2, 0), (0, 3)]),
(n231, &[(0, 1), (2, 0), (1, 0)]),
(n232, &[(0, 1), (2, 0), (1, 2)]),
(n233, &[(0, 1), (2, 0), (1, 3)]),
(n234, &[(0, 1), (2, 0), (2, 0)]),
(n235, &[(0, 1), (2, 0), (2, 1)]),
(n236, &[(0, 1), (2, 0), (2, 3)]),
(n237, &[(0, 1), (2, 0), (3, 0)]),
(n238, &[(0, 1), (2, 0), (3, 1)]),
(n239, &[(0, 1), (2, 0), (3, 2)]),
(n240, &[(0, 1), (2, 1), (0, 1)]),
(n241, &[(0, 1), (2, 1), (0, 2)]),
(n242, &[(0, 1), (2, 1), (0, 3)]),
(n243, &[(0, 1), (2, 1), (1, 0)]),
(n244, &[(0, 1), (2, 1), (1, 2)]),
(n245, &[(0, 1), (2, 1), (1, 3)]),
(n246, &[(0, 1), (2, 1), (2, 0)]),
(n247, &[(0, 1), (2, 1), (2, 1)]),
(n248, &[(0, 1), (2, 1), (2, 3)]),
(n249, &[(0, 1), (2, 1), (3, 0)]),
(n250, &[(0, 1), (2, 1), (3, 1)]),
(n251, &[(0, 1), (2, 1), (3, 2)]),
(n252, &[(0, 1), (2, 3), (0, 1)]),
(n253, &[(0, 1), (2, 3), (0, 2)]),
(n254, &[(0, 1), (2, 3), (0, 3)]),
(n255, &[(0, 1), (2, 3), (1, 0)]),
(n256, &[(0, 1), (2, 3), (1, 2)]),
(n257, &[(0, 1), (2, 3), (1, 3)]),
(n258, &[(0, 1), (2, 3), (2, 0)]),
(n259, &[(0, 1), (2, 3), (2, 1)]),
(n260, &[(0, 1), (2, 3), (2, 3)]),
(n261, &[(0, 1), (2, 3), (3, 0)]),
(n262, &[(0, 1), (2, 3), (3, 1)]),
(n263, &[(0, 1), (2, 3), (3, 2)]),
(n264, &[(0, 1), (3, 0), (0, 1)]),
(n265, &[(0, 1), (3, 0), (0, 2)]),
(n266, &[(0, 1), (3, 0), (0, 3)]),
(n267, &[(0, 1), (3, 0), (1, 0)]),
(n268, &[(0, 1), (3, 0), (1, 2)]),
(n269, &[(0, 1), (3, 0), (1, 3)]),
(n270, &[(0, 1), (3, 0), (2, 0)]),
(n271, &[(0, 1), (3, 0), (2, 1)]),
(n272, &[(0, 1), (3, 0), (2, 3)]),
(n273, &[(0, 1), (3, 0), (3, 0)]),
(n274, &[(0, 1), (3, 0), (3, 1)]),
(n275, &[(0, 1), (3, 0), (3, 2)]),
(n276, &[(0, 1), (3, 1), (0, 1)]),
(n277, &[(0, 1), (3, 1), (0, 2)]),
(n278, &[(0, 1), (3, 1), (0, 3)]),
(n279, &[(0, 1), (3, 1), (1, 0)]),
(n280, &[(0, 1), (3, 1), (1, 2)]),
(n281, &[(0, 1), (3, 1), (1, 3)]),
(n282, &[(0, 1), (3, 1), (2, 0)]),
(n283, &[(0, 1), (3, 1), (2, 1)]),
(n284, &[(0, 1), (3, 1), (2, 3)]),
(n285, &[(0, 1), (3, 1), (3, 0)]),
(n286, &[(0, 1), (3, 1), (3, 1)]),
(n287, &[(0, 1), (3, 1), (3, 2)]),
(n288, &[(0, 1), (3, 2), (0, 1)]),
(n289, &[(0, 1), (3, 2), (0, 2)]),
(n290, &[(0, 1), (3, 2), (0, 3)]),
(n291, &[(0, 1), (3, 2), (1, 0)]),
(n292, &[(0, 1), (3, 2), (1, 2)]),
(n293, &[(0, 1), (3, 2), (1, 3)]),
(n294, &[(0, 1), (3, 2), (2, 0)]),
(n295, &[(0, 1), (3, 2), (2, 1)]),
(n296, &[(0, 1), (3, 2), (2, 3)]),
(n297, &[(0, 1), (3, 2), (3, 0)]),
(n298, &[(0, 1), (3, 2), (3, 1)]),
(n299, &[(0, 1), (3, 2), (3, 2)]),
(n300, &[(0, 2), (0, 1), (0, 1)]),
(n301, &[(0, 2), (0, 1), (0, 2)]),
(n302, &[(0, 2), (0, 1), (0, 3)]),
(n303, &[(0, 2), (0, 1), (1, 0)]),
(n304, &[(0, 2), (0, 1), (1, 2)]),
(n305, &[(0, 2), (0, 1), (1, 3)]),
(n306, &[(0, 2), (0, 1), (2, 0)]),
(n307, &[(0, 2), (0, 1), (2, 1)]),
(n308, &[(0, 2), (0, 1), (2, 3)]),
(n309, &[(0, 2), (0, 1), (3, 0)]),
(n310, &[(0, 2), (0, 1), (3, 1)]),
(n311, &[(0, 2), (0, 1), (3, 2)]),
(n312, &[(0, 2), (0, 2), (0, 1)]),
(n313, &[(0, 2), (0, 2), (0, 2)]),
(n314, &[(0, 2), (0, 2), (0, 3)]),
(n315, &[(0, 2), (0, 2), (1, 0)]),
(n316, &[(0, 2), (0, 2), (1, 2)]),
(n317, &[(0, 2), (0, 2), (1, 3)]),
(n318, &[(0, 2), (0, 2), (2, 0)]),
(n319, &[(0, 2), (0, 2), (2, 1)]),
(n320, &[(0, 2), (0, 2), (2, 3)]),
(n321, &[(0, 2), (0, 2), (3, 0)]),
(n322, &[(0, 2), (0, 2), (3, 1)]),
(n323, &[(0, 2), (0, 2), (3, 2)]),
(n324, &[(0, 2), (0, 3), (0, 1)]),
(n325, &[(0, 2), (0, 3), (0, 2)]),
(n326, &[(0, 2), (0, 3), (0, 3)]),
(n327, &[(0, 2), (0, 3), (1, 0)]),
(n328, &[(0, 2), (0, 3), (1, 2)]),
(n329, &[(0, 2), (0, 3), (1, 3)]),
(n330, &[(0, 2), (0, 3), (2, 0)]),
(n331, &[(0, 2), (0, 3), (2, 1)]),
(n332, &[(0, 2), (0, 3), (2, 3)]),
(n333, &[(0, 2), (0, 3), (3, 0)]),
(n334, &[(0, 2), (0, 3), (3, 1)]),
(n335, &[(0, 2), (0, 3), (3, 2)]),
(n336, &[(0, 2), (1, 0), (0, 1)]),
(n337, &[(0, 2), (1, 0), (0, 2)]),
(n338, &[(0, 2), (1, 0), (0, 3)]),
(n339, &[(0, 2), (1, 0), (1, 0)]),
(n340, &[(0, 2), (1, 0), (1, 2)]),
(n341, &[(0, 2), (1, 0), (1, 3)]),
(n342, &[(0, 2), (1, 0), (2, 0)]),
(n343, &[(0, 2), (1, 0), (2, 1)]),
(n344, &[(0, 2), (1, 0), (2, 3)]),
(n345, &[(0, 2), (1, 0), (3, 0)]),
(n346, &[(0, 2), (1, 0), (3, 1)]),
(n347, &[(0, 2), (1, 0), (3, 2)]),
(n348, &[(0, 2), (1, 2), (0, 1)]),
(n349, &[(0, 2), (1, 2), (0, 2)]),
(n350, &[(0, 2), (1, 2), (0, 3)]),
(n351, &[(0, 2), (1, 2), (1, 0)]),
(n352, &[(0, 2), (1, 2), (1, 2)]),
(n353, &[(0, 2), (1, 2), (1, 3)]),
(n354, &[(0, 2), (1, 2), (2, 0)]),
(n355, &[(0, 2), (1, 2), (2, 1)]),
(n356, &[(0, 2), (1, 2), (2, 3)]),
(n357, &[(0, 2), (1, 2), (3, 0)]),
(n358, &[(0, 2), (1, 2), (3, 1)]),
(n359, &[(0, 2), (1, 2), (3, 2)]),
(n360, &[(0, 2), (1, 3), (0, 1)]),
(n361, &[(0, 2), (1, 3), (0, 2)]),
(n362, &[(0, 2), (1, 3), (0, 3)]),
(n363, &[(0, 2), (1, 3), (1, 0)]),
(n364, &[(0, 2), (1, 3), (1, 2)]),
(n365, &[(0, 2), (1, 3), (1, 3)]),
(n366, &[(0, 2), (1, 3), (2, 0)]),
(n367, &[(0, 2), (1, 3), (2, 1)]),
(n368, &[(0, 2), (1, 3), (2, 3)]),
(n369, &[(0, 2), (1, 3), (3, 0)]),
(n370, &[(0, 2), (1, 3), (3, 1)]),
(n371, &[(0, 2), (1, 3), (3, 2)]),
(n372, &[(0, 2), (2, 0), (0, 1)]),
(n373, &[(0, 2), (2, 0), (0, 2)]),
(n374, &[(0, 2), (2, 0), (0, 3)]),
(n375, &[(0, 2), (2, 0), (1, 0)]),
(n376, &[(0, 2), (2, 0), (1, 2)]),
(n377, &[(0, 2), (2, 0), (1, 3)]),
(n378, &[(0, 2), (2, 0), (2, 0)]),
(n379, &[(0, 2), (2, 0), (2, 1)]),
(n380, &[(0, 2), (2, 0), (2, 3)]),
(n381, &[(0, 2), (2, 0), (3, 0)]),
(n382, &[(0, 2), (2, 0), (3, 1)]),
(n383, &[(0, 2), (2, 0), (3, 2)]),
(n384, &[(0, 2), (2, 1), (0, 1)]),
(n385, &[(0, 2), (2, 1), (0, 2)]),
(n386, &[(0, 2), (2, 1), (0, 3)]),
(n387, &[(0, 2), (2, 1), (1, 0)]),
(n388, &[(0, 2), (2, 1), (1, 2)]),
(n389, &[(0, 2), (2, 1), (1, 3)]),
(n390, &[(0, 2), (2, 1), (2, 0)]),
(n391, &[(0, 2), (2, 1), (2, 1)]),
(n392, &[(0, 2), (2, 1), (2, 3)]),
(n393, &[(0, 2), (2, 1), (3, 0)]),
(n394, &[(0, 2), (2, 1), (3, 1)]),
(n395, &[(0, 2), (2, 1), (3, 2)]),
(n396, &[(0, 2), (2, 3), (0, 1)]),
(n397, &[(0, 2), (2, 3), (0, 2)]),
(n398, &[(0, 2), (2, 3), (0, 3)]),
(n399, &[(0, 2), (2, 3), (1, 0)]),
(n400, &[(0, 2), (2, 3), (1, 2)]),
(n401, &[(0, 2), (2, 3), (1, 3)]),
(n402, &[(0, 2), (2, 3), (2, 0)]),
(n403, &[(0, 2), (2, 3), (2, 1)]),
(n404, &[(0, 2), (2, 3), (2, 3)]),
(n405, &[(0, 2), (2, 3), (3, 0)]),
(n406, &[(0, 2), (2, 3), (3, 1)]),
(n407, &[(0, 2), (2, 3), (3, 2)]),
(n408, &[(0, 2), (3, 0), (0, 1)]),
(n409, &[(0, 2), (3, 0), (0, 2)]),
(n410, &[(0, 2), (3, 0), (0, 3)]),
(n411, &[(0, 2), (3, 0), (1, 0)]),
(n412, &[(0, 2), (3, 0), (1, 2)]),
(n413, &[(0, 2), (3, 0), (1, 3)]),
(n414, &[(0, 2), (3, 0), (2, 0)]),
(n415, &[(0, 2), (3, 0), (2, 1)]),
(n416, &[(0, 2), (3, 0), (2, 3)]),
(n417, &[(0, 2), (3, 0), (3, 0)]),
(n418, &[(0, 2), (3, 0), (3, 1)]),
(n419, &[(0, 2), (3, 0), (3, 2)]),
(n420, &[(0, 2), (3, 1), (0, 1)]),
(n421, &[(0, 2), (3, 1), (0, 2)]),
(n422, &[(0, 2), (3, 1), (0, 3)]),
(n423, &[(0, 2), (3, 1), (1, 0)]),
(n424, &[(0, 2), (3, 1), (1, 2)]),
(n425, &[(0, 2), (3, 1), (1, 3)]),
(n426, &[(0, 2), (3, 1), (2, 0)]),
(n427, &[(0, 2), (3, 1), (2, 1)]),
(n428, &[(0, 2), (3, 1), (2, 3)]),
(n429, &[(0, 2), (3, 1), (3, 0)]),
(n430, &[(0, 2), (3, 1), (3, 1)]),
(n431, &[(0, 2), (3, 1), (3, 2)]),
(n432, &[(0, 2), (3, 2), (0, 1)]),
(n433, &[(0, 2), (3, 2), (0, 2)]),
(n434, &[(0, 2), (3, 2), (0, 3)]),
(n435, &[(0, 2), (3, 2), (1, 0)]),
(n436, &[(0, 2), (3, 2), (1, 2)]),
(n437, &[(0, 2), (3, 2), (1, 3)]),
(n438, &[(0, 2), (3, 2), (2, 0)]),
(n439, &[(0, 2), (3, 2), (2, 1)]),
(n440, &[(0, 2), (3, 2), (2, 3)]),
(n441, &[(0, 2), (3, 2), (3, 0)]),
(n442, &[(0, 2), (3, 2), (3, 1)]),
(n443, &[(0, 2), (3, 2), (3, 2)]),
(n444, &[(0, 3), (0, 1), (0, 1)]),
(n445, &[(0, 3), (0, 1), (0, 2)]),
(n446, &[(0, 3), (0, 1), (0, 3)]),
(n447, &[(0, 3), (0, 1), (1, 0)]),
(n448, &[(0, 3), (0, 1), (1, 2)]),
(n449, &[(0, 3), (0, 1), (1, 3)]),
(n450, &[(0, 3), (0, 1), (2, 0)]),
(n451, &[(0, 3), (0, 1), (2, 1)]),
(n452, &[(0, 3), (0, 1), (2, 3)]),
(n453, &[(0, 3), (0, 1), (3, 0)]),
(n454, &[(0, 3), (0, 1), (3, 1)]),
(n455, &[(0, 3), (0, 1), (3, 2)]),
(n456, &[(0, 3), (0, 2), (0, 1)]),
(n457, &[(0, 3), (0, 2), (0, 2)]),
(n458, &[(0, 3), (0, 2), (0, 3)]),
(n459, &[(0, 3), (0, 2), (1, 0)]),
(n460, &[(0, 3), (0, 2), (1, 2)]),
(n461, &[(0, 3), (0, 2), (1, 3)]),
(n462, &[(0, 3), (0, 2), (2, 0)]),
(n463, &[(0, 3), (0, 2), (2, 1)]),
(n464, &[(0, 3), (0, 2), (2, 3)]),
(n465, &[(0, 3), (0, 2), (3, 0)]),
(n466, &[(0, 3), (0, 2), (3, 1)]),
(n467, &[(0, 3), (0, 2), (3, 2)]),
(n468, &[(0, 3), (0, 3), (0, 1)]),
(n469, &[(0, 3), (0, 3), (0, 2)]),
(n470, &[(0, 3), (0, 3), (0, 3)]),
(n471, &[(0, 3), (0, 3), (1, 0)]),
(n472, &[(0, 3), (0, 3), (1, 2)]),
(n473, &[(0, 3), (0, 3), (1, 3)]),
(n474, &[(0, 3), (0, 3), (2, 0)]),
(n475, &[(0, 3), (0, 3), (2, 1)]),
(n476, &[(0, 3), (0, 3), (2, 3)]),
(n477, &[(0, 3), (0, 3), (3, 0)]),
(n478, &[(0, 3), (0, 3), (3, 1)]),
(n479, &[(0, 3), (0, 3), (3, 2)]),
(n480, &[(0, 3), (1, 0), (0, 1)]),
(n481, &[(0, 3), (1, 0), (0, 2)]),
(n482, &[(0, 3), (1, 0), (0, 3)]),
(n483, &[(0, 3), (1, 0), (1, 0)]),
(n484, &[(0, 3), (1, 0), (1, 2)]),
(n485, &[(0, 3), (1, 0), (1, 3)]),
(n486, &[(0, 3), (1, 0), (2, 0)]),
(n487, &[(0, 3), (1, 0), (2, 1)]),
(n488, &[(0, 3), (1, 0), (2, 3)]),
(n489, &[(0, 3), (1, 0), (3, 0)]),
(n490, &[(0, 3), (1, 0), (3, 1)]),
(n491, &[(0, 3), (1, 0), (3, 2)]),
(n492, &[(0, 3), (1, 2), (0, 1)]),
(n493, &[(0, 3), (1, 2), (0, 2)]),
(n494, &[(0, 3), (1, 2), (0, 3)]),
(n495, &[(0, 3), (1, 2), (1, 0)]),
(n496, &[(0, 3), (1, 2), (1, 2)]),
(n497, &[(0, 3), (1, 2), (1, 3)]),
(n498, &[(0, 3), (1, 2), (2, 0)]),
(n499, &[(0, 3), (1, 2), (2, 1)]),
(n500, &[(0, 3), (1, 2), (2, 3)]),
(n501, &[(0, 3), (1, 2), (3, 0)]),
(n502, &[(0, 3), (1, 2), (3, 1)]),
(n503, &[(0, 3), (1, 2), (3, 2)]),
(n504, &[(0, 3), (1, 3), (0, 1)]),
(n505, &[(0, 3), (1, 3), (0, 2)]),
(n506, &[(0, 3), (1, 3), (0, 3)]),
(n507, &[(0, 3), (1, 3), (1, 0)]),
(n508, &[(0, 3), (1, 3), (1, 2)]),
(n509, &[(0, 3), (1, 3), (1, 3)]),
(n510, &[(0, 3), (1, 3), (2, 0)]),
(n511, &[(0, 3), (1, 3), (2, 1)]),
(n512, &[(0, 3), (1, 3), (2, 3)]),
(n513, &[(0, 3), (1, 3), (3, 0)]),
(n514, &[(0, 3), (1, 3), (3, 1)]),
(n515, &[(0, 3), (1, 3), (3, 2)]),
(n516, &[(0, 3), (2, 0), (0, 1)]),
(n517, &[(0, 3), (2, 0), (0, 2)]),
(n518, &[(0, 3), (2, 0), (0, 3)]),
(n519, &[(0, 3), (2, 0), (1, 0)]),
(n520, &[(0, 3), (2, 0), (1, 2)]),
(n521, &[(0, 3), (2, 0), (1, 3)]),
(n522, &[(0, 3), (2, 0), (2, 0)]),
(n523, &[(0, 3), (2, 0), (2, 1)]),
(n524, &[(0, 3), (2, 0), (2, 3)]),
(n525, &[(0, 3), (2, 0), (3, 0)]),
(n526, &[(0, 3), (2, 0), (3, 1)]),
(n527, &[(0, 3), (2, 0), (3, 2)]),
(n528, &[(0, 3), (2, 1), (0, 1)]),
(n529, &[(0, 3), (2, 1), (0, 2)]),
(n530, &[(0, 3), (2, 1), (0, 3)]),
(n531, &[(0, 3), (2, 1), (1, 0)]),
(n532, &[(0, 3), (2, 1), (1, 2)]),
(n533, &[(0, 3), (2, 1), (1, 3)]),
(n534, &[(0, 3), (2, 1), (2, 0)]),
(n535, &[(0, 3), (2, 1), (2, 1)]),
(n536, &[(0, 3), (2, 1), (2, 3)]),
(n537, &[(0, 3), (2, 1), (3, 0)]),
(n538, &[(0, 3), (2, 1), (3, 1)]),
(n539, &[(0, 3), (2, 1), (3, 2)]),
(n540, &[(0, 3), (2, 3), (0, 1)]),
(n541, &[(0, 3), (2, 3), (0, 2)]),
(n542, &[(0, 3), (2, 3), (0, 3)]),
(n543, &[(0, 3), (2, 3), (1, 0)]),
(n544, &[(0, 3), (2, 3), (1, 2)]),
(n545, &[(0, 3), (2, 3), (1, 3)]),
(n546, &[(0, 3), (2, 3), (2, 0)]),
(n547, &[(0, 3), (2, 3), (2, 1)]),
(n548, &[(0, 3), (2, 3), (2, 3)]),
(n549, &[(0, 3), (2, 3), (3, 0)]),
(n550, &[(0, 3), (2, 3), (3, 1)]),
(n551, &[(0, 3), (2, 3), (3, 2)]),
(n552, &[(0, 3), (3, 0), (0, 1)]),
(n553, &[(0, 3), (3, 0), (0, 2)]),
(n554, &[(0, 3), (3, 0), (0, 3)]),
(n555, &[(0, 3), (3, 0), (1, 0)]),
(n556, &[(0, 3), (3, 0), (1, 2)]),
(n557, &[(0, 3), (3, 0), (1, 3)]),
(n558, &[(0, 3), (3, 0), (2, 0)]),
(n559, &[(0, 3), (3, 0), (2, 1)]),
(n560, &[(0, 3), (3, 0), (2, 3)]),
(n561, &[(0, 3), (3, 0), (3, 0)]),
(n562, &[(0, 3), (3, 0), (3, 1)]),
(n563, &[(0, 3), (3, 0), (3, 2)]),
(n564, &[(0, 3), (3, 1), (0, 1)]),
(n565, &[(0, 3), (3, 1), (0, 2)]),
(n566, &[(0, 3), (3, 1), (0, 3)]),
(n567, &[(0, 3), (3, 1), (1, 0)]),
(n568, &[(0, 3), (3, 1), (1, 2)]),
(n569, &[(0, 3), (3, 1), (1, 3)]),
(n570, &[(0, 3), (3, 1), (2, 0)]),
(n571, &[(0, 3), (3, 1), (2, 1)]),
(n572, &[(0, 3), (3, 1), (2, 3)]),
(n573, &[(0, 3), (3, 1), (3, 0)]),
(n574, &[(0, 3), (3, 1), (3, 1)]),
(n575, &[(0, 3), (3, 1), (3, 2)]),
(n576, &[(0, 3), (3, 2), (0, 1)]),
(n577, &[(0, 3), (3, 2), (0, 2)]),
(n578, &[(0, 3), (3, 2), (0, 3)]),
(n579, &[(0, 3), (3, 2), (1, 0)]),
(n580, &[(0, 3), (3, 2), (1, 2)]),
(n581, &[(0, 3), (3, 2), (1, 3)]),
(n582, &[(0, 3), (3, 2), (2, 0)]),
(n583, &[(0, 3), (3, 2), (2, 1)]),
(n584, &[(0, 3), (3, 2), (2, 3)]),
(n585, &[(0, 3), (3, 2), (3, 0)]),
(n586, &[(0, 3), (3, 2), (3, 1)]),
(n587, &[(0, 3), (3, 2), (3, 2)]),
(n588, &[(1, 0), (0, 1), (0, 1)]),
(n589, &[(1, 0), (0, 1), (0, 2)]),
(n590, &[(1, 0), (0, 1), (0, 3)]),
(n591, &[(1, 0), (0, 1), (1, 0)]),
(n592, &[(1, 0), (0, 1), (1, 2)]),
(n593, &[(1, 0), (0, 1), (1, 3)]),
(n594, &[(1, 0), (0, 1), (2, 0)]),
(n595, &[(1, 0), (0, 1), (2, 1)]),
(n596, &[(1, 0), (0, 1), (2, 3)]),
(n597, &[(1, 0), (0, 1), (3, 0)]),
(n598, &[(1, 0), (0, 1), (3, 1)]),
(n599, &[(1, 0), (0, 1), (3, 2)]),
(n600, &[(1, 0), (0, 2), (0, 1)]),
(n601, &[(1, 0), (0, 2), (0, 2)]),
(n602, &[(1, 0), (0, 2), (0, 3)]),
(n603, &[(1, 0), (0, 2), (1, 0)]),
(n604, &[(1, 0), (0, 2), (1, 2)]),
(n605, &[(1, 0), (0, 2), (1, 3)]),
(n606, &[(1, 0), (0, 2), (2, 0)]),
(n607, &[(1, 0), (0, 2), (2, 1)]),
(n608, &[(1, 0), (0, 2), (2, 3)]),
(n609, &[(1, 0), (0, 2), (3, 0)]),
(n610, &[(1, 0), (0, 2), (3, 1)]),
(n611, &[(1, 0), (0, 2), (3, 2)]),
(n612, &[(1, 0), (0, 3), (0, 1)]),
(n613, &[(1, 0), (0, 3), (0, 2)]),
(n614, &[(1, 0), (0, 3), (0, 3)]),
(n615, &[(1, 0), (0, 3), (1, 0)]),
(n616, &[(1, 0), (0, 3), (1, 2)]),
(n617, &[(1, 0), (0, 3), (1, 3)]),
(n618, &[(1, 0), (0, 3), (2, 0)]),
(n619, &[(1, 0), (0, 3), (2, 1)]),
(n620, &[(1, 0), (0, 3), (2, 3)]),
(n621, &[(1, 0), (0, 3), (3, 0)]),
(n622, &[(1, 0), (0, 3), (3, 1)]),
(n623, &[(1, 0), (0, 3), (3, 2)]),
(n624, &[(1, 0), (1, 0), (0, 1)]),
(n625, &[(1, 0), (1, 0), (0, 2)]),
(n626, &[(1, 0), (1, 0), (0, 3)]),
(n627, &[(1, 0), (1, 0), (1, 0)]),
(n628, &[(1, 0), (1, 0), (1, 2)]),
(n629, &[(1, 0), (1, 0), (1, 3)]),
(n630, &[(1, 0), (1, 0), (2, 0)]),
(n631, &[(1, 0), (1, 0), (2, 1)]),
(n632, &[(1, 0), (1, 0), (2, 3)]),
(n633, &[(1, 0), (1, 0), (3, 0)]),
(n634, &[(1, 0), (1, 0), (3, 1)]),
(n635, &[(1, 0), (1, 0), (3, 2)]),
(n636, &[(1, 0), (1, 2), (0, 1)]),
(n637, &[(1, 0), (1, 2), (0, 2)]),
(n638, &[(1, 0), (1, 2), (0, 3)]),
(n639, &[(1, 0), (1, 2), (1, 0)]),
(n640, &[(1, 0), (1, 2), (1, 2)]),
(n641, &[(1, 0), (1, 2), (1, 3)]),
(n642, &[(1, 0), (1, 2), (2, 0)]),
(n643, &[(1, 0), (1, 2), (2, 1)]),
(n644, &[(1, 0), (1, 2), (2, 3)]),
(n645, &[(1, 0), (1, 2), (3, 0)]),
(n646, &[(1, 0), (1, 2), (3, 1)]),
(n647, &[(1, 0), (1, 2), (3, 2)]),
(n648, &[(1, 0), (1, 3), (0, 1)]),
(n649, &[(1, 0), (1, 3), (0, 2)]),
(n650, &[(1, 0), (1, 3), (0, 3)]),
(n651, &[(1, 0), (1, 3), (1, 0)]),
(n652, &[(1, 0), (1, 3), (1, 2)]),
(n653, &[(1, 0), (1, 3), (1, 3)]),
(n654, &[(1, 0), (1, 3), (2, 0)]),
(n655, &[(1, 0), (1, 3), (2, 1)]),
(n656, &[(1, 0), (1, 3), (2, 3)]),
(n657, &[(1, 0), (1, 3), (3, 0)]),
(n658, &[(1, 0), (1, 3), (3, 1)]),
(n659, &[(1, 0), (1, 3), (3, 2)]),
(n660, &[(1, 0), (2, 0), (0, 1)]),
(n661, &[(1, 0), (2, 0), (0, 2)]),
(n662, &[(1, 0), (2, 0), (0, 3)]),
(n663, &[(1, 0), (2, 0), (1, 0)]),
(n664, &[(1, 0), (2, 0), (1, 2)]),
(n665, &[(1, 0), (2, 0), (1, 3)]),
(n666, &[(1, 0), (2, 0), (2, 0)]),
(n667, &[(1, 0), (2, 0), (2, 1)]),
(n668, &[(1, 0), (2, 0), (2, 3)]),
(n669, &[(1, 0), (2, 0), (3, 0)]),
(n670, &[(1, 0), (2, 0), (3, 1)]),
(n671, &[(1, 0), (2, 0), (3, 2)]),
(n672, &[(1, 0), (2, 1), (0, 1)]),
(n673, &[(1, 0), (2, 1), (0, 2)]),
(n674, &[(1, 0), (2, 1), (0, 3)]),
(n675, &[(1, 0), (2, 1), (1, 0)]),
(n676, &[(1, 0), (2, 1), (1, 2)]),
(n677, &[(1, 0), (2, 1), (1, 3)]),
(n678, &[(1, 0), (2, 1), (2, 0)]),
(n679, &[(1, 0), (2, 1), (2, 1)]),
(n680, &[(1, 0), (2, 1), (2, 3)]),
(n681, &[(1, 0), (2, 1), (3, 0)]),
(n682, &[(1, 0), (2, 1), (3, 1)]),
(n683, &[(1, 0), (2, 1), (3, 2)]),
(n684, &[(1, 0), (2, 3), (0, 1)]),
(n685, &[(1, 0), (2, 3), (0, 2)]),
(n686, &[(1, 0), (2, 3), (0, 3)]),
(n687, &[(1, 0), (2, 3), (1, 0)]),
(n688, &[(1, 0), (2, 3), (1, 2)]),
(n689, &[(1, 0), (2, 3), (1, 3)]),
(n690, &[(1, 0), (2, 3), (2, 0)]),
(n691, &[(1, 0), (2, 3), (2, 1)]),
(n692, &[(1, 0), (2, 3), (2, 3)]),
(n693, &[(1, 0), (2, 3), (3, 0)]),
(n694, &[(1, 0), (2, 3), (3, 1)]),
(n695, &[(1, 0), (2, 3), (3, 2)]),
(n696, &[(1, 0), (3, 0), (0, 1)]),
(n697, &[(1, 0), (3, 0), (0, 2)]),
(n698, &[(1, 0), (3, 0), (0, 3)]),
(n699, &[(1, 0), (3, 0), (1, 0)]),
(n700, &[(1, 0), (3, 0), (1, 2)]),
(n701, &[(1, 0), (3, 0), (1, 3)]),
(n702, &[(1, 0), (3, 0), (2, 0)]),
(n703, &[(1, 0), (3, 0), (2, 1)]),
(n704, &[(1, 0), (3, 0), (2, 3)]),
(n705, &[(1, 0), (3, 0), (3, 0)]),
(n706, &[(1, 0), (3, 0), (3, 1)]),
(n707, &[(1, 0), (3, 0), (3, 2)]),
(n708, &[(1, 0), (3, 1), (0, 1)]),
(n709, &[(1, 0), (3, 1), (0, 2)]),
(n710, &[(1, 0), (3, 1), (0, 3)]),
(n711, &[(1, 0), (3, 1), (1, 0)]),
(n712, &[(1, 0), (3, 1), (1, 2)]),
(n713, &[(1, 0), (3, 1), (1, 3)]),
(n714, &[(1, 0), (3, 1), (2, 0)]),
(n715, &[(1, 0), (3, 1), (2, 1)]),
(n716, &[(1, 0), (3, 1), (2, 3)]),
(n717, &[(1, 0), (3, 1), (3, 0)]),
(n718, &[(1, 0), (3, 1), (3, 1)]),
(n719, &[(1, 0), (3, 1), (3, 2)]),
(n720, &[(1, 0), (3, 2), (0, 1)]),
(n721, &[(1, 0), (3, 2), (0, 2)]),
(n722, &[(1, 0), (3, 2), (0, 3)]),
(n723, &[(1, 0), (3, 2), (1, 0)]),
(n724, &[(1, 0), (3, 2), (1, 2)]),
(n725, &[(1, 0), (3, 2), (1, 3)]),
(n726, &[(1, 0), (3, 2), (2, 0)]),
(n727, &[(1, 0), (3, 2), (2, 1)]),
(n728, &[(1, 0), (3, 2), (2, 3)]),
(n729, &[(1, 0), (3, 2), (3, 0)]),
(n730, &[(1, 0), (3, 2), (3, 1)]),
(n731, &[(1, 0), (3, 2), (3, 2)]),
(n732, &[(1, 2), (0, 1), (0, 1)]),
(n733, &[(1, 2), (0, 1), (0, 2)]),
(n734, &[(1, 2), (0, 1), (0, 3)]),
(n735, &[(1, 2), (0, 1), (1, 0)]),
(n736, &[(1, 2), (0, 1), (1, 2)]),
(n737, &[(1, 2), (0, 1), (1, 3)]),
(n738, &[(1, 2), (0, 1), (2, 0)]),
(n739, &[(1, 2), (0, 1), (2, 1)]),
(n740, &[(1, 2), (0, 1), (2, 3)]),
(n741, &[(1, 2), (0, 1), (3, 0)]),
(n742, &[(1, 2), (0, 1), (3, 1)]),
(n743, &[(1, 2), (0, 1), (3, 2)]),
(n744, &[(1, 2), (0, 2), (0, 1)]),
(n745, &[(1, 2), (0, 2), (0, 2)]),
(n746, &[(1, 2), (0, 2), (0, 3)]),
(n747, &[(1, 2), (0, 2), (1, 0)]),
(n748, &[(1, 2), (0, 2), (1, 2)]),
(n749, &[(1, 2), (0, 2), (1, 3)]),
(n750, &[(1, 2), (0, 2), (2, 0)]),
(n751, &[(1, 2), (0, 2), (2, 1)]),
(n752, &[(1, 2), (0, 2), (2, 3)]),
(n753, &[(1, 2), (0, 2), (3, 0)]),
(n754, &[(1, 2), (0, 2), (3, 1)]),
(n755, &[(1, 2), (0, 2), (3, 2)]),
(n756, &[(1, 2), (0, 3), (0, 1)]),
(n757, &[(1, 2), (0, 3), (0, 2)]),
(n758, &[(1, 2), (0, 3), (0, 3)]),
(n759, &[(1, 2), (0, 3), (1, 0)]),
(n760, &[(1, 2), (0, 3), (1, 2)]),
(n761, &[(1, 2), (0, 3), (1, 3)]),
(n762, &[(1, 2), (0, 3), (2, 0)]),
(n763, &[(1, 2), (0, 3), (2, 1)]),
(n764, &[(1, 2), (0, 3), (2, 3)]),
(n765, &[(1, 2), (0, 3), (3, 0)]),
(n766, &[(1, 2), (0, 3), (3, 1)]),
(n767, &[(1, 2), (0, 3), (3, 2)]),
(n768, &[(1, 2), (1, 0), (0, 1)]),
(n769, &[(1, 2), (1, 0), (0, 2)]),
(n770, &[(1, 2), (1, 0), (0, 3)]),
(n771, &[(1, 2), (1, 0), (1, 0)]),
(n772, &[(1, 2), (1, 0), (1, 2)]),
(n773, &[(1, 2), (1, 0), (1, 3)]),
(n774, &[(1, 2), (1, 0), (2, 0)]),
(n775, &[(1, 2), (1, 0), (2, 1)]),
(n776, &[(1, 2), (1, 0), (2, 3)]),
(n777, &[(1, 2), (1, 0), (3, 0)]),
(n778, &[(1, 2), (1, 0), (3, 1)]),
(n779, &[(1, 2), (1, 0), (3, 2)]),
(n780, &[(1, 2), (1, 2), (0, 1)]),
(n781, &[(1, 2), (1, 2), (0, 2)]),
(n782, &[(1, 2), (1, 2), (0, 3)]),
(n783, &[(1, 2), (1, 2), (1, 0)]),
(n784, &[(1, 2), (1, 2), (1, 2)]),
(n785, &[(1, 2), (1, 2), (1, 3)]),
(n786, &[(1, 2), (1, 2), (2, 0)]),
(n787, &[(1, 2), (1, 2), (2, 1)]),
(n788, &[(1, 2), (1, 2), (2, 3)]),
(n789, &[(1, 2), (1, 2), (3, 0)]),
(n790, &[(1, 2), (1, 2), (3, 1)]),
(n791, &[(1, 2), (1, 2), (3, 2)]),
(n792, &[(1, 2), (1, 3), (0, 1)]),
(n793, &[(1, 2), (1, 3), (0, 2)]),
(n794, &[(1, 2), (1, 3), (0, 3)]),
(n795, &[(1, 2), (1, 3), (1, 0)]),
(n796, &[(1, 2), (1, 3), (1, 2)]),
(n797, &[(1, 2), (1, 3), (1, 3)]),
(n798, &[(1, 2), (1, 3), (2, 0)]),
(n799, &[(1, 2), (1, 3), (2, 1)]),
(n800, &[(1, 2), (1, 3), (2, 3)]),
(n801, &[(1, 2), (1, 3), (3, 0)]),
(n802, &[(1, 2), (1, 3), (3, 1)]),
(n803, &[(1, 2), (1, 3), (3, 2)]),
(n804, &[(1, 2), (2, 0), (0, 1)]),
(n805, &[(1, 2), (2, 0), (0, 2)]),
(n806, &[(1, 2), (2, 0), (0, 3)]),
(n807, &[(1, 2), (2, 0), (1, 0)]),
(n808, &[(1, 2), (2, 0), (1, 2)]),
(n809, &[(1, 2), (2, 0), (1, 3)]),
(n810, &[(1, 2), (2, 0), (2, 0)]),
(n811, &[(1, 2), (2, 0), (2, 1)]),
(n812, &[(1, 2), (2, 0), (2, 3)]),
(n813, &[(1, 2), (2, 0), (3, 0)]),
(n814, &[(1, 2), (2, 0), (3, 1)]),
(n815, &[(1, 2), (2, 0), (3, 2)]),
(n816, &[(1, 2), (2, 1), (0, 1)]),
(n817, &[(1, 2), (2, 1), (0, 2)]),
(n818, &[(1, 2), (2, 1), (0, 3)]),
(n819, &[(1, 2), (2, 1), (1, 0)]),
(n820, &[(1, 2), (2, 1), (1, 2)]),
(n821, &[(1, 2), (2, 1), (1, 3)]),
(n822, &[(1, 2), (2, 1), (2, 0)]),
(n823, &[(1, 2), (2, 1), (2, 1)]),
(n824, &[(1, 2), (2, 1), (2, 3)]),
(n825, &[(1, 2), (2, 1), (3, 0)]),
(n826, &[(1, 2), (2, 1), (3, 1)]),
(n827, &[(1, 2), (2, 1), (3, 2)]),
(n828, &[(1, 2), (2, 3), (0, 1)]),
(n829, &[(1, 2), (2, 3), (0, 2)]),
(n830, &[(1, 2), (2, 3), (0, 3)]),
(n831, &[(1, 2), (2, 3), (1, 0)]),
(n832, &[(1, 2), (2, 3), (1, 2)]),
(n833, &[(1, 2), (2, 3), (1, 3)]),
(n834, &[(1, 2), (2, 3), (2, 0)]),
(n835, &[(1, 2), (2, 3), (2, 1)]),
(n836, &[(1, 2), (2, 3), (2, 3)]),
(n837, &[(1, 2), (2, 3), (3, 0)]),
(n838, &[(1, 2), (2, 3), (3, 1)]),
(n839, &[(1, 2), (2, 3), (3, 2)]),
(n840, &[(1, 2), (3, 0), (0, 1)]),
(n841, &[(1, 2), (3, 0), (0, 2)]),
(n842, &[(1, 2), (3, 0), (0, 3)]),
(n843, &[(1, 2), (3, 0), (1, 0)]),
(n844, &[(1, 2), (3, 0), (1, 2)]),
(n845, &[(1, 2), (3, 0), (1, 3)]),
(n846, &[(1, 2), (3, 0), (2, 0)]),
(n847, &[(1, 2), (3, 0), (2, 1)]),
(n848, &[(1, 2), (3, 0), (2, 3)]),
(n849, &[(1, 2), (3, 0), (3, 0)]),
(n850, &[(1, 2), (3, 0), (3, 1)]),
(n851, &[(1, 2), (3, 0), (3, 2)]),
(n852, &[(1, 2), (3, 1), (0, 1)]),
(n853, &[(1, 2), (3, 1), (0, 2)]),
(n854, &[(1, 2), (3, 1), (0, 3)]),
(n855, &[(1, 2), (3, 1), (1, 0)]),
(n856, &[(1, 2), (3, 1), (1, 2)]),
(n857, &[(1, 2), (3, 1), (1, 3)]),
(n858, &[(1, 2), (3, 1), (2, 0)]),
(n859, &[(1, 2), (3, 1), (2, 1)]),
(n860, &[(1, 2), (3, 1), (2, 3)]),
(n861, &[(1, 2), (3, 1), (3, 0)]),
(n862, &[(1, 2), (3, 1), (3, 1)]),
(n863, &[(1, 2), (3, 1), (3, 2)]),
(n864, &[(1, 2), (3, 2), (0, 1)]),
(n865, &[(1, 2), (3, 2), (0, 2)]),
(n866, &[(1, 2), (3, 2), (0, 3)]),
(n867, &[(1, 2), (3, 2), (1, 0)]),
(n868, &[(1, 2), (3, 2), (1, 2)]),
(n869, &[(1, 2), (3, 2), (1, 3)]),
(n870, &[(1, 2), (3, 2), (2, 0)]),
(n871, &[(1, 2), (3, 2), (2, 1)]),
(n872, &[(1, 2), (3, 2), (2, 3)]),
(n873, &[(1, 2), (3, 2), (3, 0)]),
(n874, &[(1, 2), (3, 2), (3, 1)]),
(n875, &[(1, 2), (3, 2), (3, 2)]),
(n876, &[(1, 3), (0, 1), (0, 1)]),
(n877, &[(1, 3), (0, 1), (0, 2)]),
(n878, &[(1, 3), (0, 1), (0, 3)]),
(n879, &[(1, 3), (0, 1), (1, 0)]),
(n880, &[(1, 3), (0, 1), (1, 2)]),
(n881, &[(1, 3), (0, 1), (1, 3)]),
(n882, &[(1, 3), (0, 1), (2, 0)]),
(n883, &[(1, 3), (0, 1), (2, 1)]),
(n884, &[(1, 3), (0, 1), (2, 3)]),
(n885, &[(1, 3), (0, 1), (3, 0)]),
(n886, &[(1, 3), (0, 1), (3, 1)]),
(n887, &[(1, 3), (0, 1), (3, 2)]),
(n888, &[(1, 3), (0, 2), (0, 1)]),
(n889, &[(1, 3), (0, 2), (0, 2)]),
(n890, &[(1, 3), (0, 2), (0, 3)]),
(n891, &[(1, 3), (0, 2), (1, 0)]),
(n892, &[(1, 3), (0, 2), (1, 2)]),
(n893, &[(1, 3), (0, 2), (1, 3)]),
(n894, &[(1, 3), (0, 2), (2, 0)]),
(n895, &[(1, 3), (0, 2), (2, 1)]),
(n896, &[(1, 3), (0, 2), (2, 3)]),
(n897, &[(1, 3), (0, 2), (3, 0)]),
(n898, &[(1, 3), (0, 2), (3, 1)]),
(n899, &[(1, 3), (0, 2), (3, 2)]),
(n900, &[(1, 3), (0, 3), (0, 1)]),
(n901, &[(1, 3), (0, 3), (0, 2)]),
(n902, &[(1, 3), (0, 3), (0, 3)]),
(n903, &[(1, 3), (0, 3), (1, 0)]),
(n904, &[(1, 3), (0, 3), (1, 2)]),
(n905, &[(1, 3), (0, 3), (1, 3)]),
(n906, &[(1, 3), (0, 3), (2, 0)]),
(n907, &[(1, 3), (0, 3), (2, 1)]),
(n908, &[(1, 3), (0, 3), (2, 3)]),
(n909, &[(1, 3), (0, 3), (3, 0)]),
(n910, &[(1, 3), (0, 3), (3, 1)]),
(n911, &[(1, 3), (0, 3), (3, 2)]),
(n912, &[(1, 3), (1, 0), (0, 1)]),
(n913, &[(1, 3), (1, 0), (0, 2)]),
(n914, &[(1, 3), (1, 0), (0, 3)]),
(n915, &[(1, 3), (1, 0), (1, 0)]),
(n916, &[(1, 3), (1, 0), (1, 2)]),
(n917, &[(1, 3), (1, 0), (1, 3)]),
(n918, &[(1, 3), (1, 0), (2, 0)]),
(n919, &[(1, 3), (1, 0), (2, 1)]),
(n920, &[(1, 3), (1, 0), (2, 3)]),
(n921, &[(1, 3), (1, 0), (3, 0)]),
(n922, &[(1, 3), (1, 0), (3, 1)]),
(n923, &[(1, 3), (1, 0), (3, 2)]),
(n924, &[(1, 3), (1, 2), (0, 1)]),
(n925, &[(1, 3), (1, 2), (0, 2)]),
(n926, &[(1, 3), (1, 2), (0, 3)]),
(n927, &[(1, 3), (1, 2), (1, 0)]),
(n928, &[(1, 3), (1, 2), (1, 2)]),
(n929, &[(1, 3), (1, 2), (1, 3)]),
(n930, &[(1, 3), (1, 2), (2, 0)]),
(n931, &[(1, 3), (1, 2), (2, 1)]),
(n932, &[(1, 3), (1, 2), (2, 3)]),
(n933, &[(1, 3), (1, 2), (3, 0)]),
(n934, &[(1, 3), (1, 2), (3, 1)]),
(n935, &[(1, 3), (1, 2), (3, 2)]),
(n936, &[(1, 3), (1, 3), (0, 1)]),
(n937, &[(1, 3), (1, 3), (0, 2)]),
(n938, &[(1, 3), (1, 3), (0, 3)]),
(n939, &[(1, 3), (1, 3), (1, 0)]),
(n940, &[(1, 3), (1, 3), (1, 2)]),
(n941, &[(1, 3), (1, 3), (1, 3)]),
(n942, &[(1, 3), (1, 3), (2, 0)]),
(n943, &[(1, 3), (1, 3), (2, 1)]),
(n944, &[(1, 3), (1, 3), (2, 3)]),
(n945, &[(1, 3), (1, 3), (3, 0)]),
(n946, &[(1, 3), (1, 3), (3, 1)]),
(n947, &[(1, 3), (1, 3), (3, 2)]),
(n948, &[(1, 3), (2, 0), (0, 1)]),
(n949, &[(1, 3), (2, 0), (0, 2)]),
(n950, &[(1, 3), (2, 0), (0, 3)]),
(n951, &[(1, 3), (2, 0), (1, 0)]),
(n952, &[(1, 3), (2, 0), (1, 2)]),
(n953, &[(1, 3), (2, 0), (1, 3)]),
(n954, &[(1, 3), (2, 0), (2, 0)]),
(n955, &[(1, 3), (2, 0), (2, 1)]),
(n956, &[(1, 3), (2, 0), (2, 3)]),
(n957, &[(1, 3), (2, 0), (3, 0)]),
(n958, &[(1, 3), (2, 0), (3, 1)]),
(n959, &[(1, 3), (2, 0), (3, 2)]),
(n960, &[(1, 3), (2, 1), (0, 1)]),
(n961, &[(1, 3), (2, 1), (0, 2)]),
(n962, &[(1, 3), (2, 1), (0, 3)]),
(n963, &[(1, 3), (2, 1), (1, 0)]),
(n964, &[(1, 3), (2, 1), (1, 2)]),
(n965, &[(1, 3), (2, 1), (1, 3)]),
(n966, &[(1, 3), (2, 1), (2, 0)]),
(n967, &[(1, 3), (2, 1), (2, 1)]),
(n968, &[(1, 3), (2, 1), (2, 3)]),
(n969, &[(1, 3), (2, 1), (3, 0)]),
(n970, &[(1, 3), (2, 1), (3, 1)]),
(n971, &[(1, 3), (2, 1), (3, 2)]),
(n972, &[(1, 3), (2, 3), (0, 1)]),
(n973, &[(1, 3), (2, 3), (0, 2)]),
(n974, &[(1, 3), (2, 3), (0, 3)]),
(n975, &[(1, 3), (2, 3), (1, 0)]),
(n976, &[(1, 3), (2, 3), (1, 2)]),
(n977, &[(1, 3), (2, 3), (1, 3)]),
(n978, &[(1, 3), (2, 3), (2, 0)]),
(n979, &[(1, 3), (2, 3), (2, 1)]),
(n980, &[(1, 3), (2, 3), (2, 3)]),
(n981, &[(1, 3), (2, 3), (3, 0)]),
(n982, &[(1, 3), (2, 3), (3, 1)]),
(n983, &[(1, 3), (2, 3), (3, 2)]),
(n984, &[(1, 3), (3, 0), (0, 1)]),
(n985, &[(1, 3), (3, 0), (0, 2)]),
(n986, &[(1, 3), (3, 0), (0, 3)]),
(n987, &[(1, 3), (3, 0), (1, 0)]),
(n988, &[(1, 3), (3, 0), (1, 2)]),
(n989, &[(1, 3), (3, 0), (1, 3)]),
(n990, &[(1, 3), (3, 0), (2, 0)]),
(n991, &[(1, 3), (3, 0), (2, 1)]),
(n992, &[(1, 3), (3, 0), (2, 3)]),
(n993, &[(1, 3), (3, 0), (3, 0)]),
(n994, &[(1, 3), (3, 0), (3, 1)]),
(n995, &[(1, 3), (3, 0), (3, 2)]),
(n996, &[(1, 3), (3, 1), (0, 1)]),
(n997, &[(1, 3), (3, 1), (0, 2)]),
(n998, &[(1, 3), (3, 1), (0, 3)]),
(n999, &[(1, 3), (3, 1), (1, 0)]),
(n1000, &[(1, 3), (3, 1), (1, 2)]),
(n1001, &[(1, 3), (3, 1), (1, 3)]),
(n1002, &[(1, 3), (3, 1), (2, 0)]),
(n1003, &[(1, 3), (3, 1), (2, 1)]),
(n1004, &[(1, 3), (3, 1), (2, 3)]),
(n1005, &[(1, 3), (3, 1), (3, 0)]),
(n1006, &[(1, 3), (3, 1), (3, 1)]),
(n1007, &[(1, 3), (3, 1), (3, 2)]),
(n1008, &[(1, 3), (3, 2), (0, 1)]),
(n1009, &[(1, 3), (3, 2), (0, 2)]),
(n1010, &[(1, 3), (3, 2), (0, 3)]),
(n1011, &[(1, 3), (3, 2), (1, 0)]),
(n1012, &[(1, 3), (3, 2), (1, 2)]),
(n1013, &[(1, 3), (3, 2), (1, 3)]),
(n1014, &[(1, 3), (3, 2), (2, 0)]),
(n1015, &[(1, 3), (3, 2), (2, 1)]),
(n1016, &[(1, 3), (3, 2), (2, 3)]),
(n1017, &[(1, 3), (3, 2), (3, 0)]),
(n1018, &[(1, 3), (3, 2), (3, 1)]),
(n1019, &[(1, 3), (3, 2), (3, 2)]),
(n1020, &[(2, 0), (0, 1), (0, 1)]),
(n1021, &[(2, 0), (0, 1), (0, 2)]),
(n1022, &[(2, 0), (0, 1), (0, 3)]),
(n1023, &[(2, 0), (0, 1), (1, 0)]),
(n1024, &[(2, 0), (0, 1), (1, 2)]),
(n1025, &[(2, 0), (0, 1), (1, 3)]),
(n1026, &[(2, 0), (0, 1), (2, 0)]),
(n1027, &[(2, 0), (0, 1), (2, 1)]),
(n1028, &[(2, 0), (0, 1), (2, 3)]),
(n1029, &[(2, 0), (0, 1), (3, 0)]),
(n1030, &[(2, 0), (0, 1), (3, 1)]),
(n1031, &[(2, 0), (0, 1), (3, 2)]),
(n1032, &[(2, 0), (0, 2), (0, 1)]),
(n1033, &[(2, 0), (0, 2), (0, 2)]),
(n1034, &[(2, 0), (0, 2), (0, 3)]),
(n1035, &[(2, 0), (0, 2), (1, 0)]),
(n1036, &[(2, 0), (0, 2), (1, 2)]),
(n1037, &[(2, 0), (0, 2), (1, 3)]),
(n1038, &[(2, 0), (0, 2), (2, 0)]),
(n1039, &[(2, 0), (0, 2), (2, 1)]),
(n1040, &[(2, 0), (0, 2), (2, 3)]),
(n1041, &[(2, 0), (0, 2), (3, 0)]),
(n1042, &[(2, 0), (0, 2), (3, 1)]),
(n1043, &[(2, 0), (0, 2), (3, 2)]),
(n1044, &[(2, 0), (0, 3), (0, 1)]),
(n1045, &[(2, 0), (0, 3), (0, 2)]),
(n1046, &[(2, 0), (0, 3), (0, 3)]),
(n1047, &[(2, 0), (0, 3), (1, 0)]),
(n1048, &[(2, 0), (0, 3), (1, 2)]),
(n1049, &[(2, 0), (0, 3), (1, 3)]),
(n1050, &[(2, 0), (0, 3), (2, 0)]),
(n1051, &[(2, 0), (0, 3), (2, 1)]),
(n1052, &[(2, 0), (0, 3), (2, 3)]),
(n1053, &[(2, 0), (0, 3), (3, 0)]),
(n1054, &[(2, 0), (0, 3), (3, 1)]),
(n1055, &[(2, 0), (0, 3), (3, 2)]),
(n1056, &[(2, 0), (1, 0), (0, 1)]),
(n1057, &[(2, 0), (1, 0), (0, 2)]),
(n1058, &[(2, 0), (1, 0), (0, 3)]),
(n1059, &[(2, 0), (1, 0), (1, 0)]),
(n1060, &[(2, 0), (1, 0), (1, 2)]),
(n1061, &[(2, 0), (1, 0), (1, 3)]),
(n1062, &[(2, 0), (1, 0), (2, 0)]),
(n1063, &[(2, 0), (1, 0), (2, 1)]),
(n1064, &[(2, 0), (1, 0), (2, 3)]),
(n1065, &[(2, 0), (1, 0), (3, 0)]),
(n1066, &[(2, 0), (1, 0), (3, 1)]),
(n1067, &[(2, 0), (1, 0), (3, 2)]),
(n1068, &[(2, 0), (1, 2), (0, 1)]),
(n1069, &[(2, 0), (1, 2), (0, 2)]),
(n1070, &[(2, 0), (1, 2), (0, 3)]),
(n1071, &[(2, 0), (1, 2), (1, 0)]),
(n1072, &[(2, 0), (1, 2), (1, 2)]),
(n1073, &[(2, 0), (1, 2), (1, 3)]),
(n1074, &[(2, 0), (1, 2), (2, 0)]),
(n1075, &[(2, 0), (1, 2), (2, 1)]),
(n1076, &[(2, 0), (1, 2), (2, 3)]),
(n1077, &[(2, 0), (1, 2), (3, 0)]),
(n1078, &[(2, 0), (1, 2), (3, 1)]),
(n1079, &[(2, 0), (1, 2), (3, 2)]),
(n1080, &[(2, 0), (1, 3), (0, 1)]),
(n1081, &[(2, 0), (1, 3), (0, 2)]),
(n1082, &[(2, 0), (1, 3), (0, 3)]),
(n1083, &[(2, 0), (1, 3), (1, 0)]),
(n1084, &[(2, 0), (1, 3), (1, 2)]),
(n1085, &[(2, 0), (1, 3), (1, 3)]),
(n1086, &[(2, 0), (1, 3), (2, 0)]),
(n1087, &[(2, 0), (1, 3), (2, 1)]),
(n1088, &[(2, 0), (1, 3), (2, 3)]),
(n1089, &[(2, 0), (1, 3), (3, 0)]),
(n1090, &[(2, 0), (1, 3), (3, 1)]),
(n1091, &[(2, 0), (1, 3), (3, 2)]),
(n1092, &[(2, 0), (2, 0), (0, 1)]),
(n1093, &[(2, 0), (2, 0), (0, 2)]),
(n1094, &[(2, 0), (2, 0), (0, 3)]),
(n1095, &[(2, 0), (2, 0), (1, 0)]),
(n1096, &[(2, 0), (2, 0), (1, 2)]),
(n1097, &[(2, 0), (2, 0), (1, 3)]),
(n1098, &[(2, 0), (2, 0), (2, 0)]),
(n1099, &[(2, 0), (2, 0), (2, 1)]),
(n1100, &[(2, 0), (2, 0), (2, 3)]),
(n1101, &[(2, 0), (2, 0), (3, 0)]),
(n1102, &[(2, 0), (2, 0), (3, 1)]),
(n1103, &[(2, 0), (2, 0), (3, 2)]),
(n1104, &[(2, 0), (2, 1), (0, 1)]),
(n1105, &[(2, 0), (2, 1), (0, 2)]),
(n1106, &[(2, 0), (2, 1), (0, 3)]),
(n1107, &[(2, 0), (2, 1), (1, 0)]),
(n1108, &[(2, 0), (2, 1), (1, 2)]),
(n1109, &[(2, 0), (2, 1), (1, 3)]),
(n1110, &[(2, 0), (2, 1), (2, 0)]),
(n1111, &[(2, 0), (2, 1), (2, 1)]),
(n1112, &[(2, 0), (2, 1), (2, 3)]),
(n1113, &[(2, 0), (2, 1), (3, 0)]),
(n1114, &[(2, 0), (2, 1), (3, 1)]),
(n1115, &[(2, 0), (2, 1), (3, 2)]),
(n1116, &[(2, 0), (2, 3), (0, 1)]),
(n1117, &[(2, 0), (2, 3), (0, 2)]),
(n1118, &[(2, 0), (2, 3), (0, 3)]),
(n1119, &[(2, 0), (2, 3), (1, 0)]),
(n1120, &[(2, 0), (2, 3), (1, 2)]),
(n1121, &[(2, 0), (2, 3), (1, 3)]),
(n1122, &[(2, 0), (2, 3), (2, 0)]),
(n1123, &[(2, 0), (2, 3), (2, 1)]),
(n1124, &[(2, 0), (2, 3), (2, 3)]),
(n1125, &[(2, 0), (2, 3), (3, 0)]),
(n1126, &[(2, 0), (2, 3), (3, 1)]),
(n1127, &[(2, 0), (2, 3), (3, 2)]),
(n1128, &[(2, 0), (3, 0), (0, 1)]),
(n1129, &[(2, 0), (3, 0), (0, 2)]),
(n1130, &[(2, 0), (3, 0), (0, 3)]),
(n1131, &[(2, 0), (3, 0), (1, 0)]),
(n1132, &[(2, 0), (3, 0), (1, 2)]),
(n1133, &[(2, 0), (3, 0), (1, 3)]),
(n1134, &[(2, 0), (3, 0), (2, 0)]),
(n1135, &[(2, 0), (3, 0), (2, 1)]),
(n1136, &[(2, 0), (3, 0), (2, 3)]),
(n1137, &[(2, 0), (3, 0), (3, 0)]),
(n1138, &[(2, 0), (3, 0), (3, 1)]),
(n1139, &[(2, 0), (3, 0), (3, 2)]),
(n1140, &[(2, 0), (3, 1), (0, 1)]),
(n1141, &[(2, 0), (3, 1), (0, 2)]),
(n1142, &[(2, 0), (3, 1), (0, 3)]),
(n1143, &[(2, 0), (3, 1), (1, 0)]),
(n1144, &[(2, 0), (3, 1), (1, 2)]),
(n1145, &[(2, 0), (3, 1), (1, 3)]),
(n1146, &[(2, 0), (3, 1), (2, 0)]),
(n1147, &[(2, 0), (3, 1), (2, 1)]),
(n1148, &[(2, 0), (3, 1), (2, 3)]),
(n1149, &[(2, 0), (3, 1), (3, 0)]),
(n1150, &[(2, 0), (3, 1), (3, 1)]),
(n1151, &[(2, 0), (3, 1), (3, 2)]),
(n1152, &[(2, 0), (3, 2), (0, 1)]),
(n1153, &[(2, 0), (3, 2), (0, 2)]),
(n1154, &[(2, 0), (3, 2), (0, 3)]),
(n1155, &[(2, 0), (3, 2), (1, 0)]),
(n1156, &[(2, 0), (3, 2), (1, 2)]),
(n1157, &[(2, 0), (3, 2), (1, 3)]),
(n1158, &[(2, 0), (3, 2), (2, 0)]),
(n1159, &[(2, 0), (3, 2), (2, 1)]),
(n1160, &[(2, 0), (3, 2), (2, 3)]),
(n1161, &[(2, 0), (3, 2), (3, 0)]),
(n1162, &[(2, 0), (3, 2), (3, 1)]),
(n1163, &[(2, 0), (3, 2), (3, 2)]),
(n1164, &[(2, 1), (0, 1), (0, 1)]),
(n1165, &[(2, 1), (0, 1), (0, 2)]),
(n1166, &[(2, 1), (0, 1), (0, 3)]),
(n1167, &[(2, 1), (0, 1), (1, 0)]),
(n1168, &[(2, 1), (0, 1), (1, 2)]),
(n1169, &[(2, 1), (0, 1), (1, 3)]),
(n1170, &[(2, 1), (0, 1), (2, 0)]),
(n1171, &[(2, 1), (0, 1), (2, 1)]),
(n1172, &[(2, 1), (0, 1), (2, 3)]),
(n1173, &[(2, 1), (0, 1), (3, 0)]),
(n1174, &[(2, 1), (0, 1), (3, 1)]),
(n1175, &[(2, 1), (0, 1), (3, 2)]),
(n1176, &[(2, 1), (0, 2), (0, 1)]),
(n1177, &[(2, 1), (0, 2), (0, 2)]),
(n1178, &[(2, 1), (0, 2), (0, 3)]),
(n1179, &[(2, 1), (0, 2), (1, 0)]),
(n1180, &[(2, 1), (0, 2), (1, 2)]),
(n1181, &[(2, 1), (0, 2), (1, 3)]),
(n1182, &[(2, 1), (0, 2), (2, 0)]),
(n1183, &[(2, 1), (0, 2), (2, 1)]),
(n1184, &[(2, 1), (0, 2), (2, 3)]),
(n1185, &[(2, 1), (0, 2), (3, 0)]),
(n1186, &[(2, 1), (0, 2), (3, 1)]),
(n1187, &[(2, 1), (0, 2), (3, 2)]),
(n1188, &[(2, 1), (0, 3), (0, 1)]),
(n1189, &[(2, 1), (0, 3), (0, 2)]),
(n1190, &[(2, 1), (0, 3), (0, 3)]),
(n1191, &[(2, 1), (0, 3), (1, 0)]),
(n1192, &[(2, 1), (0, 3), (1, 2)]),
(n1193, &[(2, 1), (0, 3), (1, 3)]),
(n1194, &[(2, 1), (0, 3), (2, 0)]),
(n1195, &[(2, 1), (0, 3), (2, 1)]),
(n1196, &[(2, 1), (0, 3), (2, 3)]),
(n1197, &[(2, 1), (0, 3), (3, 0)]),
(n1198, &[(2, 1), (0, 3), (3, 1)]),
(n1199, &[(2, 1), (0, 3), (3, 2)]),
(n1200, &[(2, 1), (1, 0), (0, 1)]),
(n1201, &[(2, 1), (1, 0), (0, 2)]),
(n1202, &[(2, 1), (1, 0), (0, 3)]),
(n1203, &[(2, 1), (1, 0), (1, 0)]),
(n1204, &[(2, 1), (1, 0), (1, 2)]),
(n1205, &[(2, 1), (1, 0), (1, 3)]),
(n1206, &[(2, 1), (1, 0), (2, 0)]),
(n1207, &[(2, 1), (1, 0), (2, 1)]),
(n1208, &[(2, 1), (1, 0), (2, 3)]),
(n1209, &[(2, 1), (1, 0), (3, 0)]),
(n1210, &[(2, 1), (1, 0), (3, 1)]),
(n1211, &[(2, 1), (1, 0), (3, 2)]),
(n1212, &[(2, 1), (1, 2), (0, 1)]),
(n1213, &[(2, 1), (1, 2), (0, 2)]),
(n1214, &[(2, 1), (1, 2), (0, 3)]),
(n1215, &[(2, 1), (1, 2), (1, 0)]),
(n1216, &[(2, 1), (1, 2), (1, 2)]),
(n1217, &[(2, 1), (1, 2), (1, 3)]),
(n1218, &[(2, 1), (1, 2), (2, 0)]),
(n1219, &[(2, 1), (1, 2), (2, 1)]),
(n1220, &[(2, 1), (1, 2), (2, 3)]),
(n1221, &[(2, 1), (1, 2), (3, 0)]),
(n1222, &[(2, 1), (1, 2), (3, 1)]),
(n1223, &[(2, 1), (1, 2), (3, 2)]),
(n1224, &[(2, 1), (1, 3), (0, 1)]),
(n1225, &[(2, 1), (1, 3), (0, 2)]),
(n1226, &[(2, 1), (1, 3), (0, 3)]),
(n1227, &[(2, 1), (1, 3), (1, 0)]),
(n1228, &[(2, 1), (1, 3), (1, 2)]),
(n1229, &[(2, 1), (1, 3), (1, 3)]),
(n1230, &[(2, 1), (1, 3), (2, 0)]),
(n1231, &[(2, 1), (1, 3), (2, 1)]),
(n1232, &[(2, 1), (1, 3), (2, 3)]),
(n1233, &[(2, 1), (1, 3), (3, 0)]),
(n1234, &[(2, 1), (1, 3), (3, 1)]),
(n1235, &[(2, 1), (1, 3), (3, 2)]),
(n1236, &[(2, 1), (2, 0), (0, 1)]),
(n1237, &[(2, 1), (2, 0), (0, 2)]),
(n1238, &[(2, 1), (2, 0), (0, 3)]),
(n1239, &[(2, 1), (2, 0), (1, 0)]),
(n1240, &[(2, 1), (2, 0), (1, 2)]),
(n1241, &[(2, 1), (2, 0), (1, 3)]),
(n1242, &[(2, 1), (2, 0), (2, 0)]),
(n1243, &[(2, 1), (2, 0), (2, 1)]),
(n1244, &[(2, 1), (2, 0), (2, 3)]),
(n1245, &[(2, 1), (2, 0), (3, 0)]),
(n1246, &[(2, 1), (2, 0), (3, 1)]),
(n1247, &[(2, 1), (2, 0), (3, 2)]),
(n1248, &[(2, 1), (2, 1), (0, 1)]),
(n1249, &[(2, 1), (2, 1), (0, 2)]),
(n1250, &[(2, 1), (2, 1), (0, 3)]),
(n1251, &[(2, 1), (2, 1), (1, 0)]),
(n1252, &[(2, 1), (2, 1), (1, 2)]),
(n1253, &[(2, 1), (2, 1), (1, 3)]),
(n1254, &[(2, 1), (2, 1), (2, 0)]),
(n1255, &[(2, 1), (2, 1), (2, 1)]),
(n1256, &[(2, 1), (2, 1), (2, 3)]),
(n1257, &[(2, 1), (2, 1), (3, 0)]),
(n1258, &[(2, 1), (2, 1), (3, 1)]),
(n1259, &[(2, 1), (2, 1), (3, 2)]),
(n1260, &[(2, 1), (2, 3), (0, 1)]),
(n1261, &[(2, 1), (2, 3), (0, 2)]),
(n1262, &[(2, 1), (2, 3), (0, 3)]),
(n1263, &[(2, 1), (2, 3), (1, 0)]),
(n1264, &[(2, 1), (2, 3), (1, 2)]),
(n1265, &[(2, 1), (2, 3), (1, 3)]),
(n1266, &[(2, 1), (2, 3), (2, 0)]),
(n1267, &[(2, 1), (2, 3), (2, 1)]),
(n1268, &[(2, 1), (2, 3), (2, 3)]),
(n1269, &[(2, 1), (2, 3), (3, 0)]),
(n1270, &[(2, 1), (2, 3), (3, 1)]),
(n1271, &[(2, 1), (2, 3), (3, 2)]),
(n1272, &[(2, 1), (3, 0), (0, 1)]),
(n1273, &[(2, 1), (3, 0), (0, 2)]),
(n1274, &[(2, 1), (3, 0), (0, 3)]),
(n1275, &[(2, 1), (3, 0), (1, 0)]),
(n1276, &[(2, 1), (3, 0), (1, 2)]),
(n1277, &[(2, 1), (3, 0), (1, 3)]),
(n1278, &[(2, 1), (3, 0), (2, 0)]),
(n1279, &[(2, 1), (3, 0), (2, 1)]),
(n1280, &[(2, 1), (3, 0), (2, 3)]),
(n1281, &[(2, 1), (3, 0), (3, 0)]),
(n1282, &[(2, 1), (3, 0), (3, 1)]),
(n1283, &[(2, 1), (3, 0), (3, 2)]),
(n1284, &[(2, 1), (3, 1), (0, 1)]),
(n1285, &[(2, 1), (3, 1), (0, 2)]),
(n1286, &[(2, 1), (3, 1), (0, 3)]),
(n1287, &[(2, 1), (3, 1), (1, 0)]),
(n1288, &[(2, 1), (3, 1), (1, 2)]),
(n1289, &[(2, 1), (3, 1), (1, 3)]),
(n1290, &[(2, 1), (3, 1), (2, 0)]),
(n1291, &[(2, 1), (3, 1), (2, 1)]),
(n1292, &[(2, 1), (3, 1), (2, 3)]),
(n1293, &[(2, 1), (3, 1), (3, 0)]),
(n1294, &[(2, 1), (3, 1), (3, 1)]),
(n1295, &[(2, 1), (3, 1), (3, 2)]),
(n1296, &[(2, 1), (3, 2), (0, 1)]),
(n1297, &[(2, 1), (3, 2), (0, 2)]),
(n1298, &[(2, 1), (3, 2), (0, 3)]),
(n1299, &[(2, 1), (3, 2), (1, 0)]),
(n1300, &[(2, 1), (3, 2), (1, 2)]),
(n1301, &[(2, 1), (3, 2), (1, 3)]),
(n1302, &[(2, 1), (3, 2), (2, 0)]),
(n1303, &[(2, 1), (3, 2), (2, 1)]),
(n1304, &[(2, 1), (3, 2), (2, 3)]),
(n1305, &[(2, 1), (3, 2), (3, 0)]),
(n1306, &[(2, 1), (3, 2), (3, 1)]),
(n1307, &[(2, 1), (3, 2), (3, 2)]),
(n1308, &[(2, 3), (0, 1), (0, 1)]),
(n1309, &[(2, 3), (0, 1), (0, 2)]),
(n1310, &[(2, 3), (0, 1), (0, 3)]),
(n1311, &[(2, 3), (0, 1), (1, 0)]),
(n1312, &[(2, 3), (0, 1), (1, 2)]),
(n1313, &[(2, 3), (0, 1), (1, 3)]),
(n1314, &[(2, 3), (0, 1), (2, 0)]),
(n1315, &[(2, 3), (0, 1), (2, 1)]),
(n1316, &[(2, 3), (0, 1), (2, 3)]),
(n1317, &[(2, 3), (0, 1), (3, 0)]),
(n1318, &[(2, 3), (0, 1), (3, 1)]),
(n1319, &[(2, 3), (0, 1), (3, 2)]),
(n1320, &[(2, 3), (0, 2), (0, 1)]),
(n1321, &[(2, 3), (0, 2), (0, 2)]),
(n1322, &[(2, 3), (0, 2), (0, 3)]),
(n1323, &[(2, 3), (0, 2), (1, 0)]),
(n1324, &[(2, 3), (0, 2), (1, 2)]),
(n1325, &[(2, 3), (0, 2), (1, 3)]),
(n1326, &[(2, 3), (0, 2), (2, 0)]),
(n1327, &[(2, 3), (0, 2), (2, 1)]),
(n1328, &[(2, 3), (0, 2), (2, 3)]),
(n1329, &[(2, 3), (0, 2), (3, 0)]),
(n1330, &[(2, 3), (0, 2), (3, 1)]),
(n1331, &[(2, 3), (0, 2), (3, 2)]),
(n1332, &[(2, 3), (0, 3), (0, 1)]),
(n1333, &[(2, 3), (0, 3), (0, 2)]),
(n1334, &[(2, 3), (0, 3), (0, 3)]),
(n1335, &[(2, 3), (0, 3), (1, 0)]),
(n1336, &[(2, 3), (0, 3), (1, 2)]),
(n1337, &[(2, 3), (0, 3), (1, 3)]),
(n1338, &[(2, 3), (0, 3), (2, 0)]),
(n1339, &[(2, 3), (0, 3), (2, 1)]),
(n1340, &[(2, 3), (0, 3), (2, 3)]),
(n1341, &[(2, 3), (0, 3), (3, 0)]),
(n1342, &[(2, 3), (0, 3), (3, 1)]),
(n1343, &[(2, 3), (0, 3), (3, 2)]),
(n1344, &[(2, 3), (1, 0), (0, 1)]),
(n1345, &[(2, 3), (1, 0), (0, 2)]),
(n1346, &[(2, 3), (1, 0), (0, 3)]),
(n1347, &[(2, 3), (1, 0), (1, 0)]),
(n1348, &[(2, 3), (1, 0), (1, 2)]),
(n1349, &[(2, 3), (1, 0), (1, 3)]),
(n1350, &[(2, 3), (1, 0), (2, 0)]),
(n1351, &[(2, 3), (1, 0), (2, 1)]),
(n1352, &[(2, 3), (1, 0), (2, 3)]),
(n1353, &[(2, 3), (1, 0), (3, 0)]),
(n1354, &[(2, 3), (1, 0), (3, 1)]),
(n1355, &[(2, 3), (1, 0), (3, 2)]),
(n1356, &[(2, 3), (1, 2), (0, 1)]),
(n1357, &[(2, 3), (1, 2), (0, 2)]),
(n1358, &[(2, 3), (1, 2), (0, 3)]),
(n1359, &[(2, 3), (1, 2), (1, 0)]),
(n1360, &[(2, 3), (1, 2), (1, 2)]),
(n1361, &[(2, 3), (1, 2), (1, 3)]),
(n1362, &[(2, 3), (1, 2), (2, 0)]),
(n1363, &[(2, 3), (1, 2), (2, 1)]),
(n1364, &[(2, 3), (1, 2), (2, 3)]),
(n1365, &[(2, 3), (1, 2), (3, 0)]),
(n1366, &[(2, 3), (1, 2), (3, 1)]),
(n1367, &[(2, 3), (1, 2), (3, 2)]),
(n1368, &[(2, 3), (1, 3), (0, 1)]),
(n1369, &[(2, 3), (1, 3), (0, 2)]),
(n1370, &[(2, 3), (1, 3), (0, 3)]),
(n1371, &[(2, 3), (1, 3), (1, 0)]),
(n1372, &[(2, 3), (1, 3), (1, 2)]),
(n1373, &[(2, 3), (1, 3), (1, 3)]),
(n1374, &[(2, 3), (1, 3), (2, 0)]),
(n1375, &[(2, 3), (1, 3), (2, 1)]),
(n1376, &[(2, 3), (1, 3), (2, 3)]),
(n1377, &[(2, 3), (1, 3), (3, 0)]),
(n1378, &[(2, 3), (1, 3), (3, 1)]),
(n1379, &[(2, 3), (1, 3), (3, 2)]),
(n1380, &[(2, 3), (2, 0), (0, 1)]),
(n1381, &[(2, 3), (2, 0), (0, 2)]),
(n1382, &[(2, 3), (2, 0), (0, 3)]),
(n1383, &[(2, 3), (2, 0), (1, 0)]),
(n1384, &[(2, 3), (2, 0), (1, 2)]),
(n1385, &[(2, 3), (2, 0), (1, 3)]),
(n1386, &[(2, 3), (2, 0), (2, 0)]),
(n1387, &[(2, 3), (2, 0), (2, 1)]),
(n1388, &[(2, 3), (2, 0), (2, 3)]),
(n1389, &[(2, 3), (2, 0), (3, 0)]),
(n1390, &[(2, 3), (2, 0), (3, 1)]),
(n1391, &[(2, 3), (2, 0), (3, 2)]),
(n1392, &[(2, 3), (2, 1), (0, 1)]),
(n1393, &[(2, 3), (2, 1), (0, 2)]),
(n1394, &[(2, 3), (2, 1), (0, 3)]),
(n1395, &[(2, 3), (2, 1), (1, 0)]),
(n1396, &[(2, 3), (2, 1), (1, 2)]),
(n1397, &[(2, 3), (2, 1), (1, 3)]),
(n1398, &[(2, 3), (2, 1), (2, 0)]),
(n1399, &[(2, 3), (2, 1), (2, 1)]),
(n1400, &[(2, 3), (2, 1), (2, 3)]),
(n1401, &[(2, 3), (2, 1), (3, 0)]),
(n1402, &[(2, 3), (2, 1), (3, 1)]),
(n1403, &[(2, 3), (2, 1), (3, 2)]),
(n1404, &[(2, 3), (2, 3), (0, 1)]),
(n1405, &[(2, 3), (2, 3), (0, 2)]),
(n1406, &[(2, 3), (2, 3), (0, 3)]),
(n1407, &[(2, 3), (2, 3), (1, 0)]),
(n1408, &[(2, 3), (2, 3), (1, 2)]),
(n1409, &[(2, 3), (2, 3), (1, 3)]),
(n1410, &[(2, 3), (2, 3), (2, 0)]),
(n1411, &[(2, 3), (2, 3), (2, 1)]),
(n1412, &[(2, 3), (2, 3), (2, 3)]),
(n1413, &[(2, 3), (2, 3), (3, 0)]),
(n1414, &[(2, 3), (2, 3), (3, 1)]),
(n1415, &[(2, 3), (2, 3), (3, 2)]),
(n1416, &[(2, 3), (3, 0), (0, 1)]),
(n1417, &[(2, 3), (3, 0), (0, 2)]),
(n1418, &[(2, 3), (3, 0), (0, 3)]),
(n1419, &[(2, 3), (3, 0), (1, 0)]),
(n1420, &[(2, 3), (3, 0), (1, 2)]),
(n1421, &[(2, 3), (3, 0), (1, 3)]),
(n1422, &[(2, 3), (3, 0), (2, 0)]),
(n1423, &[(2, 3), (3, 0), (2, 1)]),
(n1424, &[(2, 3), (3, 0), (2, 3)]),
(n1425, &[(2, 3), (3, 0), (3, 0)]),
(n1426, &[(2, 3), (3, 0), (3, 1)]),
(n1427, &[(2, 3), (3, 0), (3, 2)]),
(n1428, &[(2, 3), (3, 1), (0, 1)]),
(n1429, &[(2, 3), (3, 1), (0, 2)]),
(n1430, &[(2, 3), (3, 1), (0, 3)]),
(n1431, &[(2, 3), (3, 1), (1, 0)]),
(n1432, &[(2, 3), (3, 1), (1, 2)]),
(n1433, &[(2, 3), (3, 1), (1, 3)]),
(n1434, &[(2, 3), (3, 1), (2, 0)]),
(n1435, &[(2, 3), (3, 1), (2, 1)]),
(n1436, &[(2, 3), (3, 1), (2, 3)]),
(n1437, &[(2, 3), (3, 1), (3, 0)]),
(n1438, &[(2, 3), (3, 1), (3, 1)]),
(n1439, &[(2, 3), (3, 1), (3, 2)]),
(n1440, &[(2, 3), (3, 2), (0, 1)]),
(n1441, &[(2, 3), (3, 2), (0, 2)]),
(n1442, &[(2, 3), (3, 2), (0, 3)]),
(n1443, &[(2, 3), (3, 2), (1, 0)]),
(n1444, &[(2, 3), (3, 2), (1, 2)]),
(n1445, &[(2, 3), (3, 2), (1, 3)]),
(n1446, &[(2, 3), (3, 2), (2, 0)]),
(n1447, &[(2, 3), (3, 2), (2, 1)]),
(n1448, &[(2, 3), (3, 2), (2, 3)]),
(n1449, &[(2, 3), (3, 2), (3, 0)]),
(n1450, &[(2, 3), (3, 2), (3, 1)]),
(n1451, &[(2, 3), (3, 2), (3, 2)]),
(n1452, &[(3, 0), (0, 1), (0, 1)]),
(n1453, &[(3, 0), (0, 1), (0, 2)]),
(n1454, &[(3, 0), (0, 1), (0, 3)]),
(n1455, &[(3, 0), (0, 1), (1, 0)]),
(n1456, &[(3, 0), (0, 1), (1, 2)]),
(n1457, &[(3, 0), (0, 1), (1, 3)]),
(n1458, &[(3, 0), (0, 1), (2, 0)]),
(n1459, &[(3, 0), (0, 1), (2, 1)]),
(n1460, &[(3, 0), (0, 1), (2, 3)]),
(n1461, &[(3, 0), (0, 1), (3, 0)]),
(n1462, &[(3, 0), (0, 1), (3, 1)]),
(n1463, &[(3, 0), (0, 1), (3, 2)]),
(n1464, &[(3, 0), (0, 2), (0, 1)]),
(n1465, &[(3, 0), (0, 2), (0, 2)]),
(n1466, &[(3, 0), (0, 2), (0, 3)]),
(n1467, &[(3, 0), (0, 2), (1, 0)]),
(n1468, &[(3, 0), (0, 2), (1, 2)]),
(n1469, &[(3, 0), (0, 2), (1, 3)]),
(n1470, &[(3, 0), (0, 2), (2, 0)]),
(n1471, &[(3, 0), (0, 2), (2, 1)]),
(n1472, &[(3, 0), (0, 2), (2, 3)]),
(n1473, &[(3, 0), (0, 2), (3, 0)]),
(n1474, &[(3, 0), (0, 2), (3, 1)]),
(n1475, &[(3, 0), (0, 2), (3, 2)]),
(n1476, &[(3, 0), (0, 3), (0, 1)]),
(n1477, &[(3, 0), (0, 3), (0, 2)]),
(n1478, &[(3, 0), (0, 3), (0, 3)]),
(n1479, &[(3, 0), (0, 3), (1, 0)]),
(n1480, &[(3, 0), (0, 3), (1, 2)]),
(n1481, &[(3, 0), (0, 3), (1, 3)]),
(n1482, &[(3, 0), (0, 3), (2, 0)]),
(n1483, &[(3, 0), (0, 3), (2, 1)]),
(n1484, &[(3, 0), (0, 3), (2, 3)]),
(n1485, &[(3, 0), (0, 3), (3, 0)]),
(n1486, &[(3, 0), (0, 3), (3, 1)]),
(n1487, &[(3, 0), (0, 3), (3, 2)]),
(n1488, &[(3, 0), (1, 0), (0, 1)]),
(n1489, &[(3, 0), (1, 0), (0, 2)]),
(n1490, &[(3, 0), (1, 0), (0, 3)]),
(n1491, &[(3, 0), (1, 0), (1, 0)]),
(n1492, &[(3, 0), (1, 0), (1, 2)]),
(n1493, &[(3, 0), (1, 0), (1, 3)]),
(n1494, &[(3, 0), (1, 0), (2, 0)]),
(n1495, &[(3, 0), (1, 0), (2, 1)]),
(n1496, &[(3, 0), (1, 0), (2, 3)]),
(n1497, &[(3, 0), (1, 0), (3, 0)]),
(n1498, &[(3, 0), (1, 0), (3, 1)]),
(n1499, &[(3, 0), (1, 0), (3, 2)]),
(n1500, &[(3, 0), (1, 2), (0, 1)]),
(n1501, &[(3, 0), (1, 2), (0, 2)]),
(n1502, &[(3, 0), (1, 2), (0, 3)]),
(n1503, &[(3, 0), (1, 2), (1, 0)]),
(n1504, &[(3, 0), (1, 2), (1, 2)]),
(n1505, &[(3, 0), (1, 2), (1, 3)]),
(n1506, &[(3, 0), (1, 2), (2, 0)]),
(n1507, &[(3, 0), (1, 2), (2, 1)]),
(n1508, &[(3, 0), (1, 2), (2, 3)]),
(n1509, &[(3, 0), (1, 2), (3, 0)]),
(n1510, &[(3, 0), (1, 2), (3, 1)]),
(n1511, &[(3, 0), (1, 2), (3, 2)]),
(n1512, &[(3, 0), (1, 3), (0, 1)]),
(n1513, &[(3, 0), (1, 3), (0, 2)]),
(n1514, &[(3, 0), (1, 3), (0, 3)]),
(n1515, &[(3, 0), (1, 3), (1, 0)]),
(n1516, &[(3, 0), (1, 3), (1, 2)]),
(n1517, &[(3, 0), (1, 3), (1, 3)]),
(n1518, &[(3, 0), (1, 3), (2, 0)]),
(n1519, &[(3, 0), (1, 3), (2, 1)]),
(n1520, &[(3, 0), (1, 3), (2, 3)]),
(n1521, &[(3, 0), (1, 3), (3, 0)]),
(n1522, &[(3, 0), (1, 3), (3, 1)]),
(n1523, &[(3, 0), (1, 3), (3, 2)]),
(n1524, &[(3, 0), (2, 0), (0, 1)]),
(n1525, &[(3, 0), (2, 0), (0, 2)]),
(n1526, &[(3, 0), (2, 0), (0, 3)]),
(n1527, &[(3, 0), (2, 0), (1, 0)]),
(n1528, &[(3, 0), (2, 0), (1, 2)]),
(n1529, &[(3, 0), (2, 0), (1, 3)]),
(n1530, &[(3, 0), (2, 0), (2, 0)]),
(n1531, &[(3, 0), (2, 0), (2, 1)]),
(n1532, &[(3, 0), (2, 0), (2, 3)]),
(n1533, &[(3, 0), (2, 0), (3, 0)]),
(n1534, &[(3, 0), (2, 0), (3, 1)]),
(n1535, &[(3, 0), (2, 0), (3, 2)]),
(n1536, &[(3, 0), (2, 1), (0, 1)]),
(n1537, &[(3, 0), (2, 1), (0, 2)]),
(n1538, &[(3, 0), (2, 1), (0, 3)]),
(n1539, &[(3, 0), (2, 1), (1, 0)]),
(n1540, &[(3, 0), (2, 1), (1, 2)]),
(n1541, &[(3, 0), (2, 1), (1, 3)]),
(n1542, &[(3, 0), (2, 1), (2, 0)]),
(n1543, &[(3, 0), (2, 1), (2, 1)]),
(n1544, &[(3, 0), (2, 1), (2, 3)]),
(n1545, &[(3, 0), (2, 1), (3, 0)]),
(n1546, &[(3, 0), (2, 1), (3, 1)]),
(n1547, &[(3, 0), (2, 1), (3, 2)]),
(n1548, &[(3, 0), (2, 3), (0, 1)]),
(n1549, &[(3, 0), (2, 3), (0, 2)]),
(n1550, &[(3, 0), (2, 3), (0, 3)]),
(n1551, &[(3, 0), (2, 3), (1, 0)]),
(n1552, &[(3, 0), (2, 3), (1, 2)]),
(n1553, &[(3, 0), (2, 3), (1, 3)]),
(n1554, &[(3, 0), (2, 3), (2, 0)]),
(n1555, &[(3, 0), (2, 3), (2, 1)]),
(n1556, &[(3, 0), (2, 3), (2, 3)]),
(n1557, &[(3, 0), (2, 3), (3, 0)]),
(n1558, &[(3, 0), (2, 3), (3, 1)]),
(n1559, &[(3, 0), (2, 3), (3, 2)]),
(n1560, &[(3, 0), (3, 0), (0, 1)]),
(n1561, &[(3, 0), (3, 0), (0, 2)]),
(n1562, &[(3, 0), (3, 0), (0, 3)]),
(n1563, &[(3, 0), (3, 0), (1, 0)]),
(n1564, &[(3, 0), (3, 0), (1, 2)]),
(n1565, &[(3, 0), (3, 0), (1, 3)]),
(n1566, &[(3, 0), (3, 0), (2, 0)]),
(n1567, &[(3, 0), (3, 0), (2, 1)]),
(n1568, &[(3, 0), (3, 0), (2, 3)]),
(n1569, &[(3, 0), (3, 0), (3, 0)]),
(n1570, &[(3, 0), (3, 0), (3, 1)]),
(n1571, &[(3, 0), (3, 0), (3, 2)]),
(n1572, &[(3, 0), (3, 1), (0, 1)]),
(n1573, &[(3, 0), (3, 1), (0, 2)]),
(n1574, &[(3, 0), (3, 1), (0, 3)]),
(n1575, &[(3, 0), (3, 1), (1, 0)]),
(n1576, &[(3, 0), (3, 1), (1, 2)]),
(n1577, &[(3, 0), (3, 1), (1, 3)]),
(n1578, &[(3, 0), (3, 1), (2, 0)]),
(n1579, &[(3, 0), (3, 1), (2, 1)]),
(n1580, &[(3, 0), (3, 1), (2, 3)]),
(n1581, &[(3, 0), (3, 1), (3, 0)]),
(n1582, &[(3, 0), (3, 1), (3, 1)]),
(n1583, &[(3, 0), (3, 1), (3, 2)]),
(n1584, &[(3, 0), (3, 2), (0, 1)]),
(n1585, &[(3, 0), (3, 2), (0, 2)]),
(n1586, &[(3, 0), (3, 2), (0, 3)]),
(n1587, &[(3, 0), (3, 2), (1, 0)]),
(n1588, &[(3, 0), (3, 2), (1, 2)]),
(n1589, &[(3, 0), (3, 2), (1, 3)]),
(n1590, &[(3, 0), (3, 2), (2, 0)]),
(n1591, &[(3, 0), (3, 2), (2, 1)]),
(n1592, &[(3, 0), (3, 2), (2, 3)]),
(n1593, &[(3, 0), (3, 2), (3, 0)]),
(n1594, &[(3, 0), (3, 2), (3, 1)]),
(n1595, &[(3, 0), (3, 2), (3, 2)]),
(n1596, &[(3, 1), (0, 1), (0, 1)]),
(n1597, &[(3, 1), (0, 1), (0, 2)]),
(n1598, &[(3, 1), (0, 1), (0, 3)]),
(n1599, &[(3, 1), (0, 1), (1, 0)]),
(n1600, &[(3, 1), (0, 1), (1, 2)]),
(n1601, &[(3, 1), (0, 1), (1, 3)]),
(n1602, &[(3, 1), (0, 1), (2, 0)]),
(n1603, &[(3, 1), (0, 1), (2, 1)]),
(n1604, &[(3, 1), (0, 1), (2, 3)]),
(n1605, &[(3, 1), (0, 1), (3, 0)]),
(n1606, &[(3, 1), (0, 1), (3, 1)]),
(n1607, &[(3, 1), (0, 1), (3, 2)]),
(n1608, &[(3, 1), (0, 2), (0, 1)]),
(n1609, &[(3, 1), (0, 2), (0, 2)]),
(n1610, &[(3, 1), (0, 2), (0, 3)]),
(n1611, &[(3, 1), (0, 2), (1, 0)]),
(n1612, &[(3, 1), (0, 2), (1, 2)]),
(n1613, &[(3, 1), (0, 2), (1, 3)]),
(n1614, &[(3, 1), (0, 2), (2, 0)]),
(n1615, &[(3, 1), (0, 2), (2, 1)]),
(n1616, &[(3, 1), (0, 2), (2, 3)]),
(n1617, &[(3, 1), (0, 2), (3, 0)]),
(n1618, &[(3, 1), (0, 2), (3, 1)]),
(n1619, &[(3, 1), (0, 2), (3, 2)]),
(n1620, &[(3, 1), (0, 3), (0, 1)]),
(n1621, &[(3, 1), (0, 3), (0, 2)]),
(n1622, &[(3, 1), (0, 3), (0, 3)]),
(n1623, &[(3, 1), (0, 3), (1, 0)]),
(n1624, &[(3, 1), (0, 3), (1, 2)]),
(n1625, &[(3, 1), (0, 3), (1, 3)]),
(n1626, &[(3, 1), (0, 3), (2, 0)]),
(n1627, &[(3, 1), (0, 3), (2, 1)]),
(n1628, &[(3, 1), (0, 3), (2, 3)]),
(n1629, &[(3, 1), (0, 3), (3, 0)]),
(n1630, &[(3, 1), (0, 3), (3, 1)]),
(n1631, &[(3, 1), (0, 3), (3, 2)]),
(n1632, &[(3, 1), (1, 0), (0, 1)]),
(n1633, &[(3, 1), (1, 0), (0, 2)]),
(n1634, &[(3, 1), (1, 0), (0, 3)]),
(n1635, &[(3, 1), (1, 0), (1, 0)]),
(n1636, &[(3, 1), (1, 0), (1, 2)]),
(n1637, &[(3, 1), (1, 0), (1, 3)]),
(n1638, &[(3, 1), (1, 0), (2, 0)]),
(n1639, &[(3, 1), (1, 0), (2, 1)]),
(n1640, &[(3, 1), (1, 0), (2, 3)]),
(n1641, &[(3, 1), (1, 0), (3, 0)]),
(n1642, &[(3, 1), (1, 0), (3, 1)]),
(n1643, &[(3, 1), (1, 0), (3, 2)]),
(n1644, &[(3, 1), (1, 2), (0, 1)]),
(n1645, &[(3, 1), (1, 2), (0, 2)]),
(n1646, &[(3, 1), (1, 2), (0, 3)]),
(n1647, &[(3, 1), (1, 2), (1, 0)]),
(n1648, &[(3, 1), (1, 2), (1, 2)]),
(n1649, &[(3, 1), (1, 2), (1, 3)]),
(n1650, &[(3, 1), (1, 2), (2, 0)]),
(n1651, &[(3, 1), (1, 2), (2, 1)]),
(n1652, &[(3, 1), (1, 2), (2, 3)]),
(n1653, &[(3, 1), (1, 2), (3, 0)]),
(n1654, &[(3, 1), (1, 2), (3, 1)]),
(n1655, &[(3, 1), (1, 2), (3, 2)]),
(n1656, &[(3, 1), (1, 3), (0, 1)]),
(n1657, &[(3, 1), (1, 3), (0, 2)]),
(n1658, &[(3, 1), (1, 3), (0, 3)]),
(n1659, &[(3, 1), (1, 3), (1, 0)]),
(n1660, &[(3, 1), (1, 3), (1, 2)]),
(n1661, &[(3, 1), (1, 3), (1, 3)]),
(n1662, &[(3, 1), (1, 3), (2, 0)]),
(n1663, &[(3, 1), (1, 3), (2, 1)]),
(n1664, &[(3, 1), (1, 3), (2, 3)]),
(n1665, &[(3, 1), (1, 3), (3, 0)]),
(n1666, &[(3, 1), (1, 3), (3, 1)]),
(n1667, &[(3, 1), (1, 3), (3, 2)]),
(n1668, &[(3, 1), (2, 0), (0, 1)]),
(n1669, &[(3, 1), (2, 0), (0, 2)]),
(n1670, &[(3, 1), (2, 0), (0, 3)]),
(n1671, &[(3, 1), (2, 0), (1, 0)]),
(n1672, &[(3, 1), (2, 0), (1, 2)]),
(n1673, &[(3, 1), (2, 0), (1, 3)]),
(n1674, &[(3, 1), (2, 0), (2, 0)]),
(n1675, &[(3, 1), (2, 0), (2, 1)]),
(n1676, &[(3, 1), (2, 0), (2, 3)]),
(n1677, &[(3, 1), (2, 0), (3, 0)]),
(n1678, &[(3, 1), (2, 0), (3, 1)]),
(n1679, &[(3, 1), (2, 0), (3, 2)]),
(n1680, &[(3, 1), (2, 1), (0, 1)]),
(n1681, &[(3, 1), (2, 1), (0, 2)]),
(n1682, &[(3, 1), (2, 1), (0, 3)]),
(n1683, &[(3, 1), (2, 1), (1, 0)]),
(n1684, &[(3, 1), (2, 1), (1, 2)]),
(n1685, &[(3, 1), (2, 1), (1, 3)]),
(n1686, &[(3, 1), (2, 1), (2, 0)]),
(n1687, &[(3, 1), (2, 1), (2, 1)]),
(n1688, &[(3, 1), (2, 1), (2, 3)]),
(n1689, &[(3, 1), (2, 1), (3, 0)]),
(n1690, &[(3, 1), (2, 1), (3, 1)]),
(n1691, &[(3, 1), (2, 1), (3, 2)]),
(n1692, &[(3, 1), (2, 3), (0, 1)]),
(n1693, &[(3, 1), (2, 3), (0, 2)]),
(n1694, &[(3, 1), (2, 3), (0, 3)]),
(n1695, &[(3, 1), (2, 3), (1, 0)]),
(n1696, &[(3, 1), (2, 3), (1, 2)]),
(n1697, &[(3, 1), (2, 3), (1, 3)]),
(n1698, &[(3, 1), (2, 3), (2, 0)]),
(n1699, &[(3, 1), (2, 3), (2, 1)]),
(n1700, &[(3, 1), (2, 3), (2, 3)]),
(n1701, &[(3, 1), (2, 3), (3, 0)]),
(n1702, &[(3, 1), (2, 3), (3, 1)]),
(n1703, &[(3, 1), (2, 3), (3, 2)]),
(n1704, &[(3, 1), (3, 0), (0, 1)]),
(n1705, &[(3, 1), (3, 0), (0, 2)]),
(n1706, &[(3, 1), (3, 0), (0, 3)]),
(n1707, &[(3, 1), (3, 0), (1, 0)]),
(n1708, &[(3, 1), (3, 0), (1, 2)]),
(n1709, &[(3, 1), (3, 0), (1, 3)]),
(n1710, &[(3, 1), (3, 0), (2, 0)]),
(n1711, &[(3, 1), (3, 0), (2, 1)]),
(n1712, &[(3, 1), (3, 0), (2, 3)]),
(n1713, &[(3, 1), (3, 0), (3, 0)]),
(n1714, &[(3, 1), (3, 0), (3, 1)]),
(n1715, &[(3, 1), (3, 0), (3, 2)]),
(n1716, &[(3, 1), (3, 1), (0, 1)]),
(n1717, &[(3, 1), (3, 1), (0, 2)]),
(n1718, &[(3, 1), (3, 1), (0, 3)]),
(n1719, &[(3, 1), (3, 1), (1, 0)]),
(n1720, &[(3, 1), (3, 1), (1, 2)]),
(n1721, &[(3, 1), (3, 1), (1, 3)]),
(n1722, &[(3, 1), (3, 1), (2, 0)]),
(n1723, &[(3, 1), (3, 1), (2, 1)]),
(n1724, &[(3, 1), (3, 1), (2, 3)]),
(n1725, &[(3, 1), (3, 1), (3, 0)]),
(n1726, &[(3, 1), (3, 1), (3, 1)]),
(n1727, &[(3, 1), (3, 1), (3, 2)]),
(n1728, &[(3, 1), (3, 2), (0, 1)]),
(n1729, &[(3, 1), (3, 2), (0, 2)]),
(n1730, &[(3, 1), (3, 2), (0, 3)]),
(n1731, &[(3, 1), (3, 2), (1, 0)]),
(n1732, &[(3, 1), (3, 2), (1, 2)]),
(n1733, &[(3, 1), (3, 2), (1, 3)]),
(n1734, &[(3, 1), (3, 2), (2, 0)]),
(n1735, &[(3, 1), (3, 2), (2, 1)]),
(n1736, &[(3, 1), (3, 2), (2, 3)]),
(n1737, &[(3, 1), (3, 2), (3, 0)]),
(n1738, &[(3, 1), (3, 2), (3, 1)]),
(n1739, &[(3, 1), (3, 2), (3, 2)]),
(n1740, &[(3, 2), (0, 1), (0, 1)]),
(n1741, &[(3, 2), (0, 1), (0, 2)]),
(n1742, &[(3, 2), (0, 1), (0, 3)]),
(n1743, &[(3, 2), (0, 1), (1, 0)]),
(n1744, &[(3, 2), (0, 1), (1, 2)]),
(n1745, &[(3, 2), (0, 1), (1, 3)]),
(n1746, &[(3, 2), (0, 1), (2, 0)]),
(n1747, &[(3, 2), (0, 1), (2, 1)]),
(n1748, &[(3, 2), (0, 1), (2, 3)]),
(n1749, &[(3, 2), (0, 1), (3, 0)]),
(n1750, &[(3, 2), (0, 1), (3, 1)]),
(n1751, &[(3, 2), (0, 1), (3, 2)]),
(n1752, &[(3, 2), (0, 2), (0, 1)]),
(n1753, &[(3, 2), (0, 2), (0, 2)]),
(n1754, &[(3, 2), (0, 2), (0, 3)]),
(n1755, &[(3, 2), (0, 2), (1, 0)]),
(n1756, &[(3, 2), (0, 2), (1, 2)]),
(n1757, &[(3, 2), (0, 2), (1, 3)]),
(n1758, &[(3, 2), (0, 2), (2, 0)]),
(n1759, &[(3, 2), (0, 2), (2, 1)]),
(n1760, &[(3, 2), (0, 2), (2, 3)]),
(n1761, &[(3, 2), (0, 2), (3, 0)]),
(n1762, &[(3, 2), (0, 2), (3, 1)]),
(n1763, &[(3, 2), (0, 2), (3, 2)]),
(n1764, &[(3, 2), (0, 3), (0, 1)]),
(n1765, &[(3, 2), (0, 3), (0, 2)]),
(n1766, &[(3, 2), (0, 3), (0, 3)]),
(n1767, &[(3, 2), (0, 3), (1, 0)]),
(n1768, &[(3, 2), (0, 3), (1, 2)]),
(n1769, &[(3, 2), (0, 3), (1, 3)]),
(n1770, &[(3, 2), (0, 3), (2, 0)]),
(n1771, &[(3, 2), (0, 3), (2, 1)]),
(n1772, &[(3, 2), (0, 3), (2, 3)]),
(n1773, &[(3, 2), (0, 3), (3, 0)]),
(n1774, &[(3, 2), (0, 3), (3, 1)]),
(n1775, &[(3, 2), (0, 3), (3, 2)]),
(n1776, &[(3, 2), (1, 0), (0, 1)]),
(n1777, &[(3, 2), (1, 0), (0, 2)]),
(n1778, &[(3, 2), (1, 0), (0, 3)]),
(n1779, &[(3, 2), (1, 0), (1, 0)]),
(n1780, &[(3, 2), (1, 0), (1, 2)]),
(n1781, &[(3, 2), (1, 0), (1, 3)]),
(n1782, &[(3, 2), (1, 0), (2, 0)]),
(n1783, &[(3, 2), (1, 0), (2, 1)]),
(n1784, &[(3, 2), (1, 0), (2, 3)]),
(n1785, &[(3, 2), (1, 0), (3, 0)]),
(n1786, &[(3, 2), (1, 0), (3, 1)]),
(n1787, &[(3, 2), (1, 0), (3, 2)]),
(n1788, &[(3, 2), (1, 2), (0, 1)]),
(n1789, &[(3, 2), (1, 2), (0, 2)]),
(n1790, &[(3, 2), (1, 2), (0, 3)]),
(n1791, &[(3, 2), (1, 2), (1, 0)]),
(n1792, &[(3, 2), (1, 2), (1, 2)]),
(n1793, &[(3, 2), (1, 2), (1, 3)]),
(n1794, &[(3, 2), (1, 2), (2, 0)]),
(n1795, &[(3, 2), (1, 2), (2, 1)]),
(n1796, &[(3, 2), (1, 2), (2, 3)]),
(n1797, &[(3, 2), (1, 2), (3, 0)]),
(n1798, &[(3, 2), (1, 2), (3, 1)]),
(n1799, &[(3, 2), (1, 2), (3, 2)]),
(n1800, &[(3, 2), (1, 3), (0, 1)]),
(n1801, &[(3, 2), (1, 3), (0, 2)]),
(n1802, &[(3, 2), (1, 3), (0, 3)]),
(n1803, &[(3, 2), (1, 3), (1, 0)]),
(n1804, &[(3, 2), (1, 3), (1, 2)]),
(n1805, &[(3, 2), (1, 3), (1, 3)]),
(n1806, &[(3, 2), (1, 3), (2, 0)]),
(n1807, &[(3, 2), (1, 3), (2, 1)]),
(n1808, &[(3, 2), (1, 3), (2, 3)]),
(n1809, &[(3, 2), (1, 3), (3, 0)]),
(n1810, &[(3, 2), (1, 3), (3, 1)]),
(n1811, &[(3, 2), (1, 3), (3, 2)]),
(n1812, &[(3, 2), (2, 0), (0, 1)]),
(n1813, &[(3, 2), (2, 0), (0, 2)]),
(n1814, &[(3, 2), (2, 0), (0, 3)]),
(n1815, &[(3, 2), (2, 0), (1, 0)]),
(n1816, &[(3, 2), (2, 0), (1, 2)]),
(n1817, &[(3, 2), (2, 0), (1, 3)]),
(n1818, &[(3, 2), (2, 0), (2, 0)]),
(n1819, &[(3, 2), (2, 0), (2, 1)]),
(n1820, &[(3, 2), (2, 0), (2, 3)]),
(n1821, &[(3, 2), (2, 0), (3, 0)]),
(n1822, &[(3, 2), (2, 0), (3, 1)]),
(n1823, &[(3, 2), (2, 0), (3, 2)]),
(n1824, &[(3, 2), (2, 1), (0, 1)]),
(n1825, &[(3, 2), (2, 1), (0, 2)]),
(n1826, &[(3, 2), (2, 1), (0, 3)]),
(n1827, &[(3, 2), (2, 1), (1, 0)]),
(n1828, &[(3, 2), (2, 1), (1, 2)]),
(n1829, &[(3, 2), (2, 1), (1, 3)]),
(n1830, &[(3, 2), (2, 1), (2, 0)]),
(n1831, &[(3, 2), (2, 1), (2, 1)]),
(n1832, &[(3, 2), (2, 1), (2, 3)]),
(n1833, &[(3, 2), (2, 1), (3, 0)]),
(n1834, &[(3, 2), (2, 1), (3, 1)]),
(n1835, &[(3, 2), (2, 1), (3, 2)]),
(n1836, &[(3, 2), (2, 3), (0, 1)]),
(n1837, &[(3, 2), (2, 3), (0, 2)]),
(n1838, &[(3, 2), (2, 3), (0, 3)]),
(n1839, &[(3, 2), (2, 3), (1, 0)]),
(n1840, &[(3, 2), (2, 3), (1, 2)]),
(n1841, &[(3, 2), (2, 3), (1, 3)]),
(n1842, &[(3, 2), (2, 3), (2, 0)]),
(n1843, &[(3, 2), (2, 3), (2, 1)]),
(n1844, &[(3, 2), (2, 3), (2, 3)]),
(n1845, &[(3, 2), (2, 3), (3, 0)]),
(n1846, &[(3, 2), (2, 3), (3, 1)]),
(n1847, &[(3, 2), (2, 3), (3, 2)]),
(n1848, &[(3, 2), (3, 0), (0, 1)]),
(n1849, &[(3, 2), (3, 0), (0, 2)]),
(n1850, &[(3, 2), (3, 0), (0, 3)]),
(n1851, &[(3, 2), (3, 0), (1, 0)]),
(n1852, &[(3, 2), (3, 0), (1, 2)]),
(n1853, &[(3, 2), (3, 0), (1, 3)]),
(n1854, &[(3, 2), (3, 0), (2, 0)]),
(n1855, &[(3, 2), (3, 0), (2, 1)]),
(n1856, &[(3, 2), (3, 0), (2, 3)]),
(n1857, &[(3, 2), (3, 0), (3, 0)]),
(n1858, &[(3, 2), (3, 0), (3, 1)]),
(n1859, &[(3, 2), (3, 0), (3, 2)]),
(n1860, &[(3, 2), (3, 1), (0, 1)]),
(n1861, &[(3, 2), (3, 1), (0, 2)]),
(n1862, &[(3, 2), (3, 1), (0, 3)]),
(n1863, &[(3, 2), (3, 1), (1, 0)]),
(n1864, &[(3, 2), (3, 1), (1, 2)]),
(n1865, &[(3, 2), (3, 1), (1, 3)]),
(n1866, &[(3, 2), (3, 1), (2, 0)]),
(n1867, &[(3, 2), (3, 1), (2, 1)]),
(n1868, &[(3, 2), (3, 1), (2, 3)]),
(n1869, &[(3, 2), (3, 1), (3, 0)]),
(n1870, &[(3, 2), (3, 1), (3, 1)]),
(n1871, &[(3, 2), (3, 1), (3, 2)]),
(n1872, &[(3, 2), (3, 2), (0, 1)]),
(n1873, &[(3, 2), (3, 2), (0, 2)]),
(n1874, &[(3, 2), (3, 2), (0, 3)]),
(n1875, &[(3, 2), (3, 2), (1, 0)]),
(n1876, &[(3, 2), (3, 2), (1, 2)]),
(n1877, &[(3, 2), (3, 2), (1, 3)]),
(n1878, &[(3, 2), (3, 2), (2, 0)]),
(n1879, &[(3, 2), (3, 2), (2, 1)]),
(n1880, &[(3, 2), (3, 2), (2, 3)]),
(n1881, &[(3, 2), (3, 2), (3, 0)]),
(n1882, &[(3, 2), (3, 2), (3, 1)]),
(n1883, &[(3, 2), (3, 2), (3, 2)]),
(n1884, &[(0, 1), (1, 2), (2, 3), (3, 0)]),
(n1885, &[(1, 0), (1, 0), (0, 1), (1, 0)]),
(n1886, &[(3, 0), (3, 1), (3, 2), (0, 1), (1, 2), (2, 0)]),
(n1887, &[(2, 0), (0, 2), (1, 3), (3, 1), (2, 1)]),
(n1888, &[(0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2)]),
(n1889, &[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3), (2, 0), (3, 1), (0, 3), (1, 0), (2, 1), (3, 2)]),
(n1890, &[(0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1)]),
(n1891, &[(3, 2), (3, 1), (3, 0), (2, 3), (2, 1), (2, 0), (1, 3), (1, 2), (1, 0), (0, 3), (0, 2), (0, 1), (1, 0), (2, 3)])
];

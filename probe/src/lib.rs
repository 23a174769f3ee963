#![no_std]
// generated by gen.py
#[macro_use] extern crate rowcol;
use rowcol::prelude::*;

pub fn v0<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U0> { let _ = &mut f; vector![] }
pub fn v1<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U1> { vector![f(0)] }
pub fn v2<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U2> { vector![f(0), f(1)] }
pub fn v3<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U3> { vector![f(0), f(1), f(2)] }
pub fn v4<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U4> { vector![f(0), f(1), f(2), f(3)] }
pub fn v5<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U5> { vector![f(0), f(1), f(2), f(3), f(4)] }
pub fn v6<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U6> { vector![f(0), f(1), f(2), f(3), f(4), f(5)] }
pub fn v7<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U7> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6)] }
pub fn v8<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U8> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)] }
pub fn v9<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U9> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8)] }
pub fn v10<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U10> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)] }
pub fn v11<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U11> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10)] }
pub fn v12<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U12> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)] }
pub fn v13<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U13> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12)] }
pub fn v14<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U14> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)] }
pub fn v15<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U15> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14)] }
pub fn v16<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U16> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)] }
pub fn v17<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U17> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16)] }
pub fn v18<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U18> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)] }
pub fn v19<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U19> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18)] }
pub fn v20<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U20> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)] }
pub fn v21<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U21> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20)] }
pub fn v22<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U22> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21)] }
pub fn v23<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U23> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22)] }
pub fn v24<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U24> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23)] }
pub fn v25<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U25> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24)] }
pub fn v26<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U26> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25)] }
pub fn v27<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U27> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26)] }
pub fn v28<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U28> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27)] }
pub fn v29<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U29> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28)] }
pub fn v30<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U30> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29)] }
pub fn v31<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U31> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30)] }
pub fn v32<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U32> { vector![f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)] }
pub fn m1_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U1> { matrix![[f(0)]] }
pub fn m1_2<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U2> { matrix![[f(0), f(1)]] }
pub fn m1_3<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U3> { matrix![[f(0), f(1), f(2)]] }
pub fn m1_4<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U4> { matrix![[f(0), f(1), f(2), f(3)]] }
pub fn m2_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U2, U1> { matrix![[f(0)], [f(1)]] }
pub fn m2_2<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U2, U2> { matrix![[f(0), f(1)], [f(2), f(3)]] }
pub fn m2_3<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U2, U3> { matrix![[f(0), f(1), f(2)], [f(3), f(4), f(5)]] }
pub fn m2_4<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U2, U4> { matrix![[f(0), f(1), f(2), f(3)], [f(4), f(5), f(6), f(7)]] }
pub fn m3_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U3, U1> { matrix![[f(0)], [f(1)], [f(2)]] }
pub fn m3_2<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U3, U2> { matrix![[f(0), f(1)], [f(2), f(3)], [f(4), f(5)]] }
pub fn m3_3<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U3, U3> { matrix![[f(0), f(1), f(2)], [f(3), f(4), f(5)], [f(6), f(7), f(8)]] }
pub fn m3_4<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U3, U4> { matrix![[f(0), f(1), f(2), f(3)], [f(4), f(5), f(6), f(7)], [f(8), f(9), f(10), f(11)]] }
pub fn m4_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U4, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)]] }
pub fn m4_2<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U4, U2> { matrix![[f(0), f(1)], [f(2), f(3)], [f(4), f(5)], [f(6), f(7)]] }
pub fn m4_3<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U4, U3> { matrix![[f(0), f(1), f(2)], [f(3), f(4), f(5)], [f(6), f(7), f(8)], [f(9), f(10), f(11)]] }
pub fn m4_4<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U4, U4> { matrix![[f(0), f(1), f(2), f(3)], [f(4), f(5), f(6), f(7)], [f(8), f(9), f(10), f(11)], [f(12), f(13), f(14), f(15)]] }
pub fn m1_5<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U5> { matrix![[f(0), f(1), f(2), f(3), f(4)]] }
pub fn m1_6<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U6> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5)]] }
pub fn m1_7<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U7> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6)]] }
pub fn m1_8<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U8> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)]] }
pub fn m1_9<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U9> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8)]] }
pub fn m1_10<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U10> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)]] }
pub fn m1_11<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U11> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10)]] }
pub fn m1_12<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U12> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)]] }
pub fn m1_13<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U13> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12)]] }
pub fn m1_14<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U14> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)]] }
pub fn m1_15<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U15> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14)]] }
pub fn m1_16<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U16> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)]] }
pub fn m1_17<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U17> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16)]] }
pub fn m1_18<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U18> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)]] }
pub fn m1_19<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U19> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18)]] }
pub fn m1_20<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U20> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)]] }
pub fn m1_21<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U21> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20)]] }
pub fn m1_22<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U22> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21)]] }
pub fn m1_23<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U23> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22)]] }
pub fn m1_24<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U24> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23)]] }
pub fn m1_25<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U25> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24)]] }
pub fn m1_26<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U26> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25)]] }
pub fn m1_27<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U27> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26)]] }
pub fn m1_28<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U28> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27)]] }
pub fn m1_29<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U29> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28)]] }
pub fn m1_30<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U30> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29)]] }
pub fn m1_31<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U31> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30)]] }
pub fn m1_32<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U1, U32> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)]] }
pub fn m5_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U5, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)]] }
pub fn m6_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U6, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)]] }
pub fn m7_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U7, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)]] }
pub fn m8_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U8, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)]] }
pub fn m9_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U9, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)]] }
pub fn m10_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U10, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)]] }
pub fn m11_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U11, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)]] }
pub fn m12_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U12, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)]] }
pub fn m13_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U13, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)]] }
pub fn m14_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U14, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)]] }
pub fn m15_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U15, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)]] }
pub fn m16_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U16, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)]] }
pub fn m17_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U17, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)]] }
pub fn m18_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U18, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)]] }
pub fn m19_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U19, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)]] }
pub fn m20_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U20, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)]] }
pub fn m21_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U21, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)]] }
pub fn m22_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U22, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)]] }
pub fn m23_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U23, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)]] }
pub fn m24_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U24, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)]] }
pub fn m25_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U25, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)]] }
pub fn m26_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U26, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)]] }
pub fn m27_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U27, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)]] }
pub fn m28_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U28, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)], [f(27)]] }
pub fn m29_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U29, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)], [f(27)], [f(28)]] }
pub fn m30_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U30, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)], [f(27)], [f(28)], [f(29)]] }
pub fn m31_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U31, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)], [f(27)], [f(28)], [f(29)], [f(30)]] }
pub fn m32_1<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U32, U1> { matrix![[f(0)], [f(1)], [f(2)], [f(3)], [f(4)], [f(5)], [f(6)], [f(7)], [f(8)], [f(9)], [f(10)], [f(11)], [f(12)], [f(13)], [f(14)], [f(15)], [f(16)], [f(17)], [f(18)], [f(19)], [f(20)], [f(21)], [f(22)], [f(23)], [f(24)], [f(25)], [f(26)], [f(27)], [f(28)], [f(29)], [f(30)], [f(31)]] }
pub fn m2_32<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U2, U32> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)], [f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)]] }
pub fn m32_2<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U32, U2> { matrix![[f(0), f(1)], [f(2), f(3)], [f(4), f(5)], [f(6), f(7)], [f(8), f(9)], [f(10), f(11)], [f(12), f(13)], [f(14), f(15)], [f(16), f(17)], [f(18), f(19)], [f(20), f(21)], [f(22), f(23)], [f(24), f(25)], [f(26), f(27)], [f(28), f(29)], [f(30), f(31)], [f(32), f(33)], [f(34), f(35)], [f(36), f(37)], [f(38), f(39)], [f(40), f(41)], [f(42), f(43)], [f(44), f(45)], [f(46), f(47)], [f(48), f(49)], [f(50), f(51)], [f(52), f(53)], [f(54), f(55)], [f(56), f(57)], [f(58), f(59)], [f(60), f(61)], [f(62), f(63)]] }
pub fn m7_5<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U7, U5> { matrix![[f(0), f(1), f(2), f(3), f(4)], [f(5), f(6), f(7), f(8), f(9)], [f(10), f(11), f(12), f(13), f(14)], [f(15), f(16), f(17), f(18), f(19)], [f(20), f(21), f(22), f(23), f(24)], [f(25), f(26), f(27), f(28), f(29)], [f(30), f(31), f(32), f(33), f(34)]] }
pub fn m5_7<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U5, U7> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6)], [f(7), f(8), f(9), f(10), f(11), f(12), f(13)], [f(14), f(15), f(16), f(17), f(18), f(19), f(20)], [f(21), f(22), f(23), f(24), f(25), f(26), f(27)], [f(28), f(29), f(30), f(31), f(32), f(33), f(34)]] }
pub fn m6_6<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U6, U6> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5)], [f(6), f(7), f(8), f(9), f(10), f(11)], [f(12), f(13), f(14), f(15), f(16), f(17)], [f(18), f(19), f(20), f(21), f(22), f(23)], [f(24), f(25), f(26), f(27), f(28), f(29)], [f(30), f(31), f(32), f(33), f(34), f(35)]] }
pub fn m9_8<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U9, U8> { matrix![[f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)], [f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)], [f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23)], [f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)], [f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)], [f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47)], [f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55)], [f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)], [f(64), f(65), f(66), f(67), f(68), f(69), f(70), f(71)]] }

//! Laws of f32 and of the pinned glam that contracts/pre/float.rs and contracts/geo.vc state as axioms, proved for all bit patterns.
#![allow(unexpected_cfgs)]

#[cfg(kani)]
mod laws {
    use glam::Vec3;
    use std::cmp::Ordering;
    fn any() -> Vec3 { Vec3::new(kani::any(), kani::any(), kani::any()) }
    fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }

    /// ax_f_eq_sym, ax_f_eq_trans
    #[kani::proof]
    fn f32_eq_laws() {
        let (a, b, c): (f32, f32, f32) = (kani::any(), kani::any(), kani::any());
        assert!((a == b) == (b == a));
        assert!(!(a == b && b == c) || a == c);
    }
    /// ax_f_cmp, and what f_lt, f_gt, f_le and f_ge mean
    #[kani::proof]
    fn f32_cmp_laws() {
        let (a, b, c): (f32, f32, f32) = (kani::any(), kani::any(), kani::any());
        let nan = |x: f32| x.partial_cmp(&x).is_none();
        assert!(nan(a) || nan(b) || a.partial_cmp(&b).is_some());
        assert!((a.partial_cmp(&b) == Some(Ordering::Greater)) == (b.partial_cmp(&a) == Some(Ordering::Less)));
        assert!(!(a <= b && b <= c) || a <= c);
        assert!((a <= b) == matches!(a.partial_cmp(&b), Some(Ordering::Less) | Some(Ordering::Equal)));
        assert!((a >= b) == matches!(a.partial_cmp(&b), Some(Ordering::Greater) | Some(Ordering::Equal)));
        assert!((a < b) == (a.partial_cmp(&b) == Some(Ordering::Less)));
        assert!((a > b) == (a.partial_cmp(&b) == Some(Ordering::Greater)));
    }
    /// a vector is its components; equality compares them
    #[kani::proof]
    fn vec3_components() {
        let (x, y, z): (f32, f32, f32) = (kani::any(), kani::any(), kani::any());
        let v = Vec3::new(x, y, z);
        assert!(same(v.x(), x) && same(v.y(), y) && same(v.z(), z));
        let z0 = Vec3::default();
        assert!(same(z0.x(), 0.0) && same(z0.y(), 0.0) && same(z0.z(), 0.0));
        let mut s = v;
        let (p, q, r): (f32, f32, f32) = (kani::any(), kani::any(), kani::any());
        s.set_x(p);
        assert!(same(s.x(), p) && same(s.y(), y) && same(s.z(), z));
        s.set_y(q);
        assert!(same(s.x(), p) && same(s.y(), q) && same(s.z(), z));
        s.set_z(r);
        assert!(same(s.x(), p) && same(s.y(), q) && same(s.z(), r));
        let w = any();
        assert!((v == w) == (v.x() == w.x() && v.y() == w.y() && v.z() == w.z()));
    }
    /// ax_facing: a finite triple product has a finite first factor, and the components of a finite vector are comparable
    #[kani::proof]
    fn triple_finite() {
        let (a, b, c) = (any(), any(), any());
        let t = a.cross(b).dot(c);
        if t.is_finite() {
            let u = a.dot(Vec3::new(0.0, 0.0, 1.0)).abs();
            let r = a.dot(Vec3::new(0.0, 1.0, 0.0)).abs();
            let f = a.dot(Vec3::new(1.0, 0.0, 0.0)).abs();
            assert!(u >= r && u >= f || r >= u && r >= f || f >= u && f >= r);
        }
    }
    /// ax_parse_zero
    #[kani::proof]
    #[kani::unwind(32)]
    fn parse_zero() {
        assert!(matches!("0.0".parse::<f32>(), Ok(x) if x.to_bits() == 0));
    }
}

/// nom's complete byte parsers against the reference bodies of contracts/pre/bytes.rs. A parser reads its first bytes and
/// hands back the rest; the slices here have every content and every length up to 7.
#[cfg(kani)]
mod bytes {
    use nom::{number::complete::{le_u16, le_u32, le_u8}, IResult};
    fn slice(buf: &[u8; 7]) -> &[u8] {
        let n: usize = kani::any();
        kani::assume(n <= 7);
        &buf[..n]
    }
    fn holds<O: PartialEq>(i: &[u8], r: IResult<&[u8], O, ()>, width: usize, value: impl Fn(&[u8]) -> O) {
        match r {
            Ok((rest, o)) => assert!(i.len() >= width && rest.len() == i.len() - width && rest.as_ptr() == i[width..].as_ptr() && o == value(i)),
            Err(_) => assert!(i.len() < width),
        }
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_le_u8() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, le_u8::<()>(i), 1, |i| i[0]);
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_le_u16() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, le_u16::<()>(i), 2, |i| i[0] as u16 + 256 * i[1] as u16);
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_le_u32() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, le_u32::<()>(i), 4, |i| i[0] as u32 + 256 * i[1] as u32 + 65536 * i[2] as u32 + 16777216 * i[3] as u32);
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_anychar() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, nom::character::complete::anychar::<_, ()>(i), 1, |i| i[0] as char);
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_tuple() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, nom::sequence::tuple((le_u16, le_u8, le_u8))(i), 4, |i| (i[0] as u16 + 256 * i[1] as u16, i[2], i[3]));
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn nom_count() {
        let b: [u8; 7] = kani::any();
        let i = slice(&b);
        holds(i, nom::multi::count(le_u16, 2)(i), 4, |i| vec![i[0] as u16 + 256 * i[1] as u16, i[2] as u16 + 256 * i[3] as u16]);
    }
}

use crate::common::Prop;

mod attrs;
mod blocks;
mod c01;
mod c02;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c20;
mod c21;
mod c03;
mod c04;
mod c07;
mod c08;
mod sections;

pub fn all() -> Vec<Prop> {
    vec![
        c01::prop(),
        c02::prop(),
        c03::prop(),
        c04::prop(),
        sections::c05(),
        sections::c06(),
        c07::prop(),
        c08::prop(),
        attrs::c09(),
        attrs::c16(),
        attrs::c17(),
        blocks::c10(),
        blocks::c19(),
        c11::prop(),
        c12::prop(),
        c13::prop(),
        c14::prop(),
        c15::prop(),
        c20::prop(),
        c21::prop(),
    ]
}

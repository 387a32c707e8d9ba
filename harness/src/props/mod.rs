mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
mod c35;
mod c36;
mod c37;
mod c38;
mod c39;
mod c41;
mod c43;
mod c44;
mod c45;
mod c46;
mod c47;

pub static ALL: &[&crate::fw::Prop] = &[
    &c01::PROP,
    &c02::PROP,
    &c03::PROP,
    &c04::PROP,
    &c05::PROP,
    &c06::PROP,
    &c07::PROP,
    &c08::PROP,
    &c09::PROP,
    &c10::PROP,
    &c11::PROP,
    &c12::PROP,
    &c13::PROP,
    &c14::PROP,
    &c15::PROP,
    &c16::PROP,
    &c17::PROP,
    &c18::PROP,
    &c19::PROP,
    &c20::PROP,
    &c21::PROP,
    &c22::PROP,
    &c23::PROP,
    &c24::PROP,
    &c25::PROP,
    &c26::PROP,
    &c27::PROP,
    &c28::PROP,
    &c29::PROP,
    &c30::PROP,
    &c31::PROP,
    &c32::PROP,
    &c33::PROP,
    &c34::PROP,
    &c35::PROP,
    &c36::PROP,
    &c37::PROP,
    &c38::PROP,
    &c39::PROP,
    &c41::PROP,
    &c43::PROP,
    &c44::PROP,
    &c45::PROP,
    &c46::PROP,
    &c47::PROP,
];

// written by gen_shapes.py
use moncore::comps::*;
use moncore::xecs::{group::*, query::Without};
moncore::shapes! {
    &'a B;
    &'a mut D;
    &'a S;
    FullOwning<&'a A,&'a C>;
    FullOwning<&'a B,&'a C>;
    FullOwning<&'a C,&'a B>;
    FullOwning<&'a D,&'a B>;
    FullOwning<&'a Z,&'a B>;
    FullOwning<&'a G,&'a B>;
    PartialOwning<&'a A,&'a C>;
    PartialOwning<&'a B,&'a C>;
    PartialOwning<&'a C,&'a B>;
    PartialOwning<&'a D,&'a B>;
    PartialOwning<&'a Z,&'a B>;
    PartialOwning<&'a G,&'a B>;
    NonOwning<&'a A,&'a C>;
    NonOwning<&'a B,&'a C>;
    NonOwning<&'a C,&'a B>;
    NonOwning<&'a D,&'a B>;
    NonOwning<&'a Z,&'a B>;
    NonOwning<&'a G,&'a B>;
    FullOwning<&'a mut A,&'a B>;
    FullOwning<&'a C,&'a mut D>;
    FullOwning<&'a mut D,&'a mut A>;
    FullOwning<&'a mut A,&'a Z>;
    PartialOwning<&'a B,&'a mut C>;
    PartialOwning<&'a mut C,&'a mut D>;
    PartialOwning<&'a mut G,&'a A>;
    NonOwning<&'a A,&'a mut B>;
    NonOwning<&'a mut B,&'a mut C>;
    NonOwning<&'a mut D,&'a A>;
    NonOwning<&'a A,&'a mut Z>;
    (&'a B,&'a C);
    (&'a S,&'a B);
    (&'a mut V,&'a C);
    (&'a mut G,&'a C,&'a V);
    (&'a mut Z,&'a mut B,&'a G);
    (&'a C,&'a G,&'a Z,&'a S);
    (&'a G,&'a mut V,&'a C,&'a mut D,&'a B);
    (&'a mut A,&'a B,&'a C);
    (&'a A,&'a B,&'a mut C,&'a D);
    (&'a A,&'a B,&'a C,&'a mut D,&'a Z);
    (&'a mut G,Without<&'a mut V>);
    (Without<&'a mut G>,&'a mut C);
    (&'a A,Without<&'a mut D>);
    (&'a B,Without<(&'a S,Without<&'a G>)>);
    (&'a B,(&'a S,Without<&'a G>),&'a A);
    ((&'a mut C,Without<&'a D>),Without<&'a G>);
    ((&'a mut C,Without<&'a D>),&'a G,&'a V);
    (Without<&'a B>,(&'a mut G,Without<&'a V>));
    ((&'a B,&'a mut G),(&'a V,&'a S));
    ((&'a C,&'a mut Z),Without<(&'a S,&'a mut D)>);
    (&'a C,(&'a mut Z,&'a S),&'a mut D);
    (NonOwning<&'a A,&'a G>,&'a V);
    (FullOwning<&'a mut Z,&'a mut D>,&'a S,&'a A);
    (Without<FullOwning<&'a G,&'a mut C>>,&'a D);
    (&'a B,PartialOwning<&'a G,&'a C>);
    (&'a B,(FullOwning<&'a C,&'a mut A>,Without<&'a S>));
    (&'a mut D,Without<NonOwning<&'a mut C,&'a G>>);
    (FullOwning<&'a G,&'a Z>,Without<&'a mut S>);
    (FullOwning<&'a mut D,&'a mut C>,&'a mut S);
    (NonOwning<&'a mut C,&'a mut B>,&'a mut V,&'a S);
}

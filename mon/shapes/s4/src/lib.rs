// written by gen_shapes.py
use moncore::comps::*;
use moncore::xecs::{group::*, query::Without};
moncore::shapes! {
    &'a C;
    &'a mut Z;
    &'a V;
    FullOwning<&'a A,&'a Z>;
    FullOwning<&'a B,&'a Z>;
    FullOwning<&'a C,&'a Z>;
    FullOwning<&'a D,&'a Z>;
    FullOwning<&'a Z,&'a D>;
    FullOwning<&'a G,&'a D>;
    PartialOwning<&'a A,&'a Z>;
    PartialOwning<&'a B,&'a Z>;
    PartialOwning<&'a C,&'a Z>;
    PartialOwning<&'a D,&'a Z>;
    PartialOwning<&'a Z,&'a D>;
    PartialOwning<&'a G,&'a D>;
    NonOwning<&'a A,&'a Z>;
    NonOwning<&'a B,&'a Z>;
    NonOwning<&'a C,&'a Z>;
    NonOwning<&'a D,&'a Z>;
    NonOwning<&'a Z,&'a D>;
    NonOwning<&'a G,&'a D>;
    FullOwning<&'a B,&'a mut C>;
    FullOwning<&'a mut C,&'a mut D>;
    FullOwning<&'a mut G,&'a A>;
    PartialOwning<&'a A,&'a mut B>;
    PartialOwning<&'a mut B,&'a mut C>;
    PartialOwning<&'a mut D,&'a A>;
    PartialOwning<&'a A,&'a mut Z>;
    NonOwning<&'a mut A,&'a mut B>;
    NonOwning<&'a mut C,&'a D>;
    NonOwning<&'a G,&'a mut A>;
    NonOwning<&'a mut A,&'a mut Z>;
    (&'a D,&'a mut A);
    (&'a G,&'a mut A);
    (&'a mut G,&'a V);
    (&'a mut A,&'a G,&'a S);
    (&'a S,&'a V,&'a Z,&'a mut C);
    (&'a mut D,&'a mut V,&'a mut B,&'a mut A);
    (&'a G,&'a V,&'a B,&'a mut Z,&'a S);
    (&'a A,&'a B,&'a mut C);
    (&'a mut A,&'a B,&'a C,&'a D,&'a Z);
    (&'a A,&'a A);
    (&'a mut Z,Without<&'a D>);
    (Without<&'a mut V>,&'a B);
    ((&'a B,&'a S),Without<(&'a G,&'a A)>);
    (&'a B,(&'a S,&'a G),&'a A);
    (Without<(&'a mut C,&'a D)>,(&'a G,&'a V));
    (Without<(Without<&'a mut C>,&'a D)>,&'a G);
    (&'a mut C,&'a D,&'a G,(Without<&'a V>,&'a A));
    (&'a B,Without<(&'a mut G,Without<&'a V>)>);
    (&'a B,(&'a mut G,Without<&'a V>),&'a S);
    ((&'a C,Without<&'a mut Z>),Without<&'a S>);
    ((&'a C,Without<&'a mut Z>),&'a S,&'a mut D);
    (PartialOwning<&'a A,&'a C>,Without<&'a V>);
    (NonOwning<&'a D,&'a Z>,&'a G);
    (FullOwning<&'a mut C,&'a G>,&'a V,&'a mut D);
    (Without<PartialOwning<&'a mut B,&'a A>>,&'a C);
    (&'a mut V,FullOwning<&'a B,&'a mut C>);
    (&'a mut G,(FullOwning<&'a mut C,&'a mut A>,Without<&'a mut S>));
    (&'a mut B,Without<NonOwning<&'a Z,&'a A>>);
    (PartialOwning<&'a mut B,&'a D>,Without<&'a V>);
}

// written by gen_shapes.py
use moncore::comps::*;
use moncore::xecs::{group::*, query::Without};
moncore::shapes! {
    &'a mut A;
    &'a D;
    &'a mut G;
    FullOwning<&'a A,&'a B>;
    FullOwning<&'a B,&'a A>;
    FullOwning<&'a C,&'a A>;
    FullOwning<&'a D,&'a A>;
    FullOwning<&'a Z,&'a A>;
    FullOwning<&'a G,&'a A>;
    PartialOwning<&'a A,&'a B>;
    PartialOwning<&'a B,&'a A>;
    PartialOwning<&'a C,&'a A>;
    PartialOwning<&'a D,&'a A>;
    PartialOwning<&'a Z,&'a A>;
    PartialOwning<&'a G,&'a A>;
    NonOwning<&'a A,&'a B>;
    NonOwning<&'a B,&'a A>;
    NonOwning<&'a C,&'a A>;
    NonOwning<&'a D,&'a A>;
    NonOwning<&'a Z,&'a A>;
    NonOwning<&'a G,&'a A>;
    FullOwning<&'a A,&'a mut B>;
    FullOwning<&'a mut B,&'a mut C>;
    FullOwning<&'a mut D,&'a A>;
    FullOwning<&'a A,&'a mut Z>;
    PartialOwning<&'a mut A,&'a mut B>;
    PartialOwning<&'a mut C,&'a D>;
    PartialOwning<&'a G,&'a mut A>;
    PartialOwning<&'a mut A,&'a mut Z>;
    NonOwning<&'a mut B,&'a C>;
    NonOwning<&'a D,&'a mut A>;
    NonOwning<&'a mut G,&'a mut A>;
    (&'a mut G,&'a mut B);
    (&'a A,&'a mut Z);
    (&'a mut S,&'a V);
    (&'a mut G,&'a B,&'a mut D);
    (&'a V,&'a C,&'a mut B);
    (&'a mut C,&'a V,&'a S,&'a mut A);
    (&'a G,&'a D,&'a A,&'a mut V,&'a mut S);
    (&'a A,&'a mut B);
    (&'a A,&'a mut B,&'a C,&'a D);
    (&'a A,&'a B,&'a mut C,&'a D,&'a Z);
    (Without<&'a mut G>,&'a mut V);
    (&'a G,Without<&'a D>);
    (Without<&'a A>,&'a mut D);
    ((&'a B,Without<&'a S>),Without<&'a G>);
    ((&'a B,Without<&'a S>),&'a G,&'a A);
    (Without<&'a mut C>,(&'a D,Without<&'a G>));
    ((&'a mut C,&'a D),(&'a G,&'a V));
    ((&'a B,&'a mut G),Without<(&'a V,&'a S)>);
    (&'a B,(&'a mut G,&'a V),&'a S);
    (Without<(&'a C,&'a mut Z)>,(&'a S,&'a mut D));
    (Without<(Without<&'a C>,&'a mut Z)>,&'a S);
    (&'a C,&'a mut Z,&'a S,(Without<&'a mut D>,&'a A));
    (&'a mut Z,Without<FullOwning<&'a B,&'a G>>);
    (FullOwning<&'a D,&'a A>,Without<&'a mut V>);
    (PartialOwning<&'a A,&'a mut G>,&'a D);
    (NonOwning<&'a C,&'a G>,&'a mut B,&'a D);
    (Without<FullOwning<&'a mut C,&'a mut Z>>,&'a mut V);
    (&'a B,NonOwning<&'a G,&'a Z>);
    (&'a D,(NonOwning<&'a C,&'a B>,Without<&'a mut V>));
    (&'a B,Without<PartialOwning<&'a mut D,&'a mut C>>);
}

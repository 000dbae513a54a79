// written by gen_shapes.py
use moncore::comps::*;
use moncore::xecs::{group::*, query::Without};
moncore::shapes! {
    &'a mut B;
    &'a Z;
    &'a mut S;
    FullOwning<&'a A,&'a D>;
    FullOwning<&'a B,&'a D>;
    FullOwning<&'a C,&'a D>;
    FullOwning<&'a D,&'a C>;
    FullOwning<&'a Z,&'a C>;
    FullOwning<&'a G,&'a C>;
    PartialOwning<&'a A,&'a D>;
    PartialOwning<&'a B,&'a D>;
    PartialOwning<&'a C,&'a D>;
    PartialOwning<&'a D,&'a C>;
    PartialOwning<&'a Z,&'a C>;
    PartialOwning<&'a G,&'a C>;
    NonOwning<&'a A,&'a D>;
    NonOwning<&'a B,&'a D>;
    NonOwning<&'a C,&'a D>;
    NonOwning<&'a D,&'a C>;
    NonOwning<&'a Z,&'a C>;
    NonOwning<&'a G,&'a C>;
    FullOwning<&'a mut A,&'a mut B>;
    FullOwning<&'a mut C,&'a D>;
    FullOwning<&'a G,&'a mut A>;
    FullOwning<&'a mut A,&'a mut Z>;
    PartialOwning<&'a mut B,&'a C>;
    PartialOwning<&'a D,&'a mut A>;
    PartialOwning<&'a mut G,&'a mut A>;
    NonOwning<&'a mut A,&'a B>;
    NonOwning<&'a C,&'a mut D>;
    NonOwning<&'a mut D,&'a mut A>;
    NonOwning<&'a mut A,&'a Z>;
    (&'a mut D,&'a mut A);
    (&'a C,&'a A);
    (&'a D,&'a A);
    (&'a B,&'a S,&'a A);
    (&'a mut B,&'a mut V,&'a mut D);
    (&'a mut S,&'a D,&'a mut V,&'a mut G);
    (&'a A,&'a mut S,&'a mut Z,&'a mut C,&'a V);
    (&'a A,&'a mut B,&'a C);
    (&'a A,&'a B,&'a C,&'a mut D);
    (&'a A,&'a B,&'a C,&'a D,&'a mut Z);
    (Without<&'a mut Z>,&'a D);
    (&'a mut G,Without<&'a mut C>);
    (Without<(&'a B,&'a S)>,(&'a G,&'a A));
    (Without<(Without<&'a B>,&'a S)>,&'a G);
    (&'a B,&'a S,&'a G,(Without<&'a A>,&'a C));
    (&'a mut C,Without<(&'a D,Without<&'a G>)>);
    (&'a mut C,(&'a D,Without<&'a G>),&'a V);
    ((&'a B,Without<&'a mut G>),Without<&'a V>);
    ((&'a B,Without<&'a mut G>),&'a V,&'a S);
    (Without<&'a C>,(&'a mut Z,Without<&'a S>));
    ((&'a C,&'a mut Z),(&'a S,&'a mut D));
    (&'a S,PartialOwning<&'a C,&'a mut B>);
    (&'a G,(FullOwning<&'a Z,&'a A>,Without<&'a D>));
    (&'a C,Without<NonOwning<&'a D,&'a B>>);
    (PartialOwning<&'a A,&'a B>,Without<&'a C>);
    (NonOwning<&'a A,&'a mut D>,&'a G);
    (FullOwning<&'a C,&'a mut D>,&'a G,&'a mut Z);
    (Without<FullOwning<&'a mut G,&'a mut B>>,&'a mut A);
    (&'a B,NonOwning<&'a C,&'a Z>);
    (&'a B,(FullOwning<&'a D,&'a G>,Without<&'a A>));
}

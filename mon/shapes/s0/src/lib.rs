// written by gen_shapes.py
use moncore::comps::*;
use moncore::xecs::{group::*, query::Without};
moncore::shapes! {
    &'a A;
    &'a mut C;
    &'a G;
    &'a mut V;
    FullOwning<&'a A,&'a G>;
    FullOwning<&'a B,&'a G>;
    FullOwning<&'a C,&'a G>;
    FullOwning<&'a D,&'a G>;
    FullOwning<&'a Z,&'a G>;
    FullOwning<&'a G,&'a Z>;
    PartialOwning<&'a A,&'a G>;
    PartialOwning<&'a B,&'a G>;
    PartialOwning<&'a C,&'a G>;
    PartialOwning<&'a D,&'a G>;
    PartialOwning<&'a Z,&'a G>;
    PartialOwning<&'a G,&'a Z>;
    NonOwning<&'a A,&'a G>;
    NonOwning<&'a B,&'a G>;
    NonOwning<&'a C,&'a G>;
    NonOwning<&'a D,&'a G>;
    NonOwning<&'a Z,&'a G>;
    NonOwning<&'a G,&'a Z>;
    FullOwning<&'a mut B,&'a C>;
    FullOwning<&'a D,&'a mut A>;
    FullOwning<&'a mut G,&'a mut A>;
    PartialOwning<&'a mut A,&'a B>;
    PartialOwning<&'a C,&'a mut D>;
    PartialOwning<&'a mut D,&'a mut A>;
    PartialOwning<&'a mut A,&'a Z>;
    NonOwning<&'a B,&'a mut C>;
    NonOwning<&'a mut C,&'a mut D>;
    NonOwning<&'a mut G,&'a A>;
    NonOwning<&'a A,&'a A>;
    (&'a B,&'a V);
    (&'a mut A,&'a Z);
    (&'a B,&'a mut A);
    (&'a mut V,&'a C,&'a mut G);
    (&'a mut D,&'a B,&'a mut A,&'a S);
    (&'a B,&'a C,&'a mut Z,&'a mut A,&'a mut G);
    (&'a mut A,&'a B);
    (&'a mut A,&'a B,&'a C,&'a D);
    (&'a A,&'a mut B,&'a C,&'a D,&'a Z);
    (&'a C,&'a B,&'a C);
    (Without<&'a G>,&'a D);
    (&'a mut V,Without<&'a B>);
    (Without<&'a B>,(&'a S,Without<&'a G>));
    ((&'a B,&'a S),(&'a G,&'a A));
    ((&'a mut C,&'a D),Without<(&'a G,&'a V)>);
    (&'a mut C,(&'a D,&'a G),&'a V);
    (Without<(&'a B,&'a mut G)>,(&'a V,&'a S));
    (Without<(Without<&'a B>,&'a mut G)>,&'a V);
    (&'a B,&'a mut G,&'a V,(Without<&'a S>,&'a A));
    (&'a C,Without<(&'a mut Z,Without<&'a S>)>);
    (&'a C,(&'a mut Z,Without<&'a S>),&'a mut D);
    (Without<FullOwning<&'a mut B,&'a Z>>,&'a mut S);
    (&'a mut G,FullOwning<&'a C,&'a mut Z>);
    (&'a D,(NonOwning<&'a C,&'a mut Z>,Without<&'a mut S>));
    (&'a mut S,Without<FullOwning<&'a Z,&'a B>>);
    (PartialOwning<&'a mut A,&'a C>,Without<&'a D>);
    (FullOwning<&'a mut Z,&'a mut G>,&'a V);
    (NonOwning<&'a mut G,&'a Z>,&'a mut A,&'a mut S);
    (Without<PartialOwning<&'a mut Z,&'a B>>,&'a A);
}

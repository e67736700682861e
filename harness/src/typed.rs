//! What a loaded instance *is*, read through the public fields of its typed form only
//! (never through the library's own text output).

use crate::step::V;
use ifc_rs::prelude::*;

pub trait ToV {
    fn tv(&self) -> V;
}

fn n(i: i64) -> V {
    V::Num(i.to_string())
}
pub fn f(x: f64) -> V {
    V::Num(format!("{x:?}"))
}

/// optional attribute: `o!(field, x => value of x)`
macro_rules! o {
    ($e:expr, $x:ident => $b:expr) => {{
        let o = &$e;
        if o.is_omitted() {
            V::Null
        } else if o.is_inherited() {
            V::Star
        } else {
            match o.custom() {
                Some($x) => $b,
                None => V::Typed("NEITHER-OMITTED-NOR-GIVEN".into(), vec![]),
            }
        }
    }};
    ($e:expr) => { o!($e, x => x.tv()) };
}
macro_rules! s {
    ($e:expr) => {
        V::Str($e.0.clone())
    };
}
macro_rules! r {
    ($e:expr) => {
        f($e.0)
    };
}
macro_rules! b {
    ($e:expr) => {{
        let x = &$e;
        V::Enum(
            if *x == true.into() {
                "TRUE"
            } else if *x == false.into() {
                "FALSE"
            } else {
                "UNKNOWN"
            }
            .into(),
        )
    }};
}
macro_rules! os {
    ($e:expr) => { o!($e, x => s!(x)) };
}
macro_rules! or {
    ($e:expr) => { o!($e, x => r!(x)) };
}
macro_rules! ob {
    ($e:expr) => { o!($e, x => b!(*x)) };
}
macro_rules! sl {
    ($e:expr) => {
        V::List($e.0.iter().map(|x| s!(x)).collect())
    };
}
macro_rules! osl {
    ($e:expr) => { o!($e, x => sl!(x)) };
}
macro_rules! l {
    ($e:expr) => {
        V::List($e.0.iter().map(|x| x.tv()).collect())
    };
}
macro_rules! ol {
    ($e:expr) => { o!($e, x => l!(x)) };
}
macro_rules! idor {
    ($e:expr) => {
        match $e.id() {
            Some(i) => i.tv(),
            None => V::Any,
        }
    };
}
macro_rules! oidor {
    ($e:expr) => { o!($e, x => idor!(x)) };
}

impl ToV for Id {
    fn tv(&self) -> V {
        V::Ref(self.0 as u64)
    }
}
impl<T: IfcType> ToV for TypedId<T> {
    fn tv(&self) -> V {
        V::Ref(self.id().0 as u64)
    }
}
impl ToV for IfcTimestamp {
    fn tv(&self) -> V {
        n(self.0.timestamp())
    }
}

type Fs = Vec<V>;

fn cat(mut a: Fs, b: Fs) -> Fs {
    a.extend(b);
    a
}
fn root(x: &Root) -> Fs {
    vec![V::Str(x.global_id.base64_ifc_string()), o!(x.owner_history), os!(x.name), os!(x.description)]
}
fn product(x: &Product) -> Fs {
    cat(root(x), vec![os!(x.object_type), o!(x.object_placement), o!(x.representation)])
}
fn element(x: &Element) -> Fs {
    cat(product(x), vec![os!(x.tag)])
}
fn sse(x: &SpatialStructureElement) -> Fs {
    cat(product(x), vec![os!(x.long_name), o!(x.composition_type)])
}
fn elementtype(x: &ElementType) -> Fs {
    cat(
        root(x),
        vec![
            o!(x.applicable_occurence),
            ol!(x.has_property_sets),
            ol!(x.representation_maps),
            os!(x.tag),
            os!(x.element_type),
        ],
    )
}
fn context(x: &Context) -> Fs {
    cat(
        root(x),
        vec![
            os!(x.object_type),
            os!(x.long_name),
            os!(x.phase),
            l!(x.representation_context),
            o!(x.units_in_context),
        ],
    )
}
macro_rules! transform {
    ($x:expr) => {
        vec![oidor!($x.axis_x), oidor!($x.axis_y), oidor!($x.local_origin), or!($x.scale), oidor!($x.axis_z)]
    };
}
fn v2(x: f64, y: f64) -> V {
    V::List(vec![f(x), f(y)])
}
fn v3(x: f64, y: f64, z: f64) -> V {
    V::List(vec![f(x), f(y), f(z)])
}

/// coordinates are only readable through the derived debug output for directions
fn debug_vec(s: &str) -> V {
    let inner = s.rsplit('(').next().unwrap_or("").trim_end_matches(')');
    let v: Vec<V> = inner.split(',').map(|t| t.trim()).filter_map(|t| t.parse::<f64>().ok()).map(f).collect();
    if v.is_empty() { V::Any } else { V::List(v) }
}

macro_rules! kinds {
    ($($k:ident($x:ident) => $b:expr;)*) => {
        /// name and attribute values of a supported instance; None for an opaque one
        pub fn typed(t: &dyn IfcType) -> Option<(&'static str, Fs)> {
            $( if let Some($x) = t.downcast_ref::<$k>() { return Some((stringify!($k), $b)); } )*
            None
        }
        /// numbers listed under a kind, in listing order
        pub fn listed(ifc: &IFC, name: &str) -> Vec<u64> {
            match name {
                $( stringify!($k) => ifc.data.find_all_of_type::<$k>().map(|(i, _)| i.id().0 as u64).collect(), )*
                "Dummy" => ifc.data.find_all_of_type::<Dummy>().map(|(i, _)| i.id().0 as u64).collect(),
                _ => panic!("no kind {name}"),
            }
        }
        /// the numbers and values of the listing, to compare the values with direct lookup
        pub fn listed_values(ifc: &IFC, name: &str) -> Vec<(u64, Fs)> {
            match name {
                $( stringify!($k) => ifc.data.find_all_of_type::<$k>().map(|(i, $x)| (i.id().0 as u64, $b)).collect(), )*
                _ => panic!("no kind {name}"),
            }
        }
        pub const NAMES: &[&str] = &[$(stringify!($k)),*];
    };
}

kinds! {
    Project(x) => context(x);
    Site(x) => cat(sse(x), vec![
        o!(x.ref_latitude, l => V::List(l.0.iter().map(|i| n(i.0)).collect())),
        o!(x.ref_longitude, l => V::List(l.0.iter().map(|i| n(i.0)).collect())),
        or!(x.ref_elevation), os!(x.land_title_number), o!(x.site_address)]);
    Building(x) => cat(sse(x), vec![or!(x.elevation_of_ref_height), or!(x.elevation_of_terrain), o!(x.building_address)]);
    Storey(x) => cat(sse(x), vec![or!(x.elevation)]);
    Space(x) => cat(sse(x), vec![o!(x.predefined_type), or!(x.elevation_with_flooring)]);
    Wall(x) => cat(element(x), vec![oidor!(x.predefined_type)]);
    Slab(x) => cat(element(x), vec![o!(x.predefined_type)]);
    Roof(x) => cat(element(x), vec![o!(x.predefined_type)]);
    OpeningElement(x) => cat(element(x), vec![o!(x.predefined_type)]);
    ShadingDevice(x) => cat(element(x), vec![o!(x.predefined_type)]);
    Door(x) => cat(element(x), vec![or!(x.overall_height), or!(x.overall_width), o!(x.predefined_type), o!(x.operation_type), os!(x.user_defining_operation_type)]);
    Window(x) => cat(element(x), vec![or!(x.overall_height), or!(x.overall_width), o!(x.predefined_type), o!(x.partitioning_type), os!(x.user_defining_partitioning_type)]);
    WallType(x) => cat(elementtype(x), vec![x.predefined_type.tv()]);
    SlabType(x) => cat(elementtype(x), vec![x.predefined_type.tv()]);
    RoofType(x) => cat(elementtype(x), vec![x.predefined_type.tv()]);
    ShadingDeviceType(x) => cat(elementtype(x), vec![x.predefined_type.tv()]);
    SpaceType(x) => cat(elementtype(x), vec![x.predefined_type.tv(), os!(x.long_name)]);
    DoorType(x) => cat(elementtype(x), vec![x.predefined_type.tv(), x.operation_type.tv(), ob!(x.parameter_takes_precedence), os!(x.user_defined_partitioning_type)]);
    WindowType(x) => cat(elementtype(x), vec![x.predefined_type.tv(), x.partitioning_type.tv(), ob!(x.parameter_takes_precedence), os!(x.user_defined_partitioning_type)]);
    ActorRole(x) => vec![x.role.tv(), os!(x.user_defined_role), os!(x.description)];
    TelecomAddress(x) => vec![os!(x.purpose), os!(x.description), os!(x.user_defined_purpose), osl!(x.telephone_numbers), osl!(x.facsimile_numbers), os!(x.pager_number), osl!(x.email_addresses), os!(x.homepage_url)];
    PostalAddress(x) => vec![os!(x.purpose), os!(x.description), os!(x.user_defined_purpose), os!(x.internal_location), osl!(x.address_lines), os!(x.postal_box), osl!(x.town), os!(x.region), os!(x.postal_code), os!(x.country)];
    Application(x) => vec![x.application_developer.tv(), s!(x.version), s!(x.application_full_name), s!(x.application_identifier)];
    Organization(x) => vec![os!(x.id), s!(x.name), os!(x.description), ol!(x.roles), ol!(x.addresses)];
    OwnerHistory(x) => vec![o!(x.owning_user), o!(x.owning_application), o!(x.state), x.change_action.tv(), o!(x.last_modified_date), o!(x.last_modifying_user), o!(x.last_modifying_application), x.creation_date.tv()];
    Person(x) => vec![os!(x.id), os!(x.family_name), os!(x.given_name), osl!(x.middle_names), osl!(x.prefix_titles), osl!(x.suffix_titles), ol!(x.roles), ol!(x.addresses)];
    PersonAndOrganization(x) => vec![x.the_person.tv(), x.the_organization.tv(), ol!(x.roles)];
    ArbitraryClosedProfileDef(x) => vec![x.profile_type.tv(), os!(x.profile_name), x.outer_curve.tv()];
    Axis2D(x) => vec![x.location.tv(), o!(x.local_x)];
    Axis3D(x) => vec![x.location.tv(), o!(x.local_z), o!(x.local_x)];
    Direction2D(d) => vec![debug_vec(&format!("{d:?}"))];
    Direction3D(d) => vec![debug_vec(&format!("{d:?}"))];
    Point2D(d) => vec![v2(d.x, d.y)];
    Point3D(d) => vec![v3(d.x, d.y, d.z)];
    PointList2D(x) => vec![V::List(x.coord_list.0.iter().map(|p| v2(p.x, p.y)).collect()), osl!(x.tag_list)];
    PointList3D(x) => vec![V::List(x.coord_list.0.iter().map(|p| v3(p.x, p.y, p.z)).collect()), osl!(x.tag_list)];
    ExtrudedAreaSolid(x) => vec![x.swept_area.tv(), o!(x.position), x.extruded_direction.tv(), r!(x.depth)];
    IndexedPolyCurve(x) => vec![x.points.tv(), os!(x.segments), ob!(x.self_intersect)];
    LocalPlacement(x) => vec![o!(x.placement_rel_to), x.relative_placement.tv()];
    PolyLine(x) => vec![l!(x.points)];
    ProductDefinitionShape(x) => vec![os!(x.name), os!(x.description), l!(x.representations)];
    RectangleProfileDef(x) => vec![x.profile_type.tv(), os!(x.profile_name), o!(x.position), r!(x.x_dim), r!(x.y_dim)];
    GeometricRepresentationContext(x) => vec![o!(x.context_identifier), os!(x.context_type), x.coord_space_dimension.tv(), or!(x.precision), x.world_coord_system.tv(), o!(x.true_north)];
    GeometricRepresentationSubContext(x) => vec![o!(x.context_identifier), os!(x.context_type), o!(x.coord_space_dimension), or!(x.precision), o!(x.world_coord_system), o!(x.true_north), x.parent_context.tv(), or!(x.target_scale), x.target_view.tv(), os!(x.user_defined_target_view)];
    ShapeRepresentation(x) => vec![x.context_of_items.tv(), o!(x.representation_identifier), o!(x.representation_type), l!(x.items)];
    CartesianTransformationOperator3D(x) => transform!(x);
    CartesianTransformationOperator3DnonUniform(x) => cat(transform!(x), vec![or!(x.scale_y), or!(x.scale_z)]);
    Material(x) => vec![os!(x.material), os!(x.description), os!(x.category)];
    MaterialConstituent(x) => vec![os!(x.name), os!(x.description), x.material.tv(), or!(x.fraction), os!(x.category)];
    MaterialConstituentSet(x) => vec![os!(x.name), os!(x.description), l!(x.material_constituents)];
    MaterialLayer(x) => vec![o!(x.material), r!(x.layer_thickness), b!(x.is_ventilated), os!(x.name), os!(x.description), os!(x.category), o!(x.priority, i => n(i.0))];
    MaterialLayerSet(x) => vec![l!(x.material_layers), os!(x.layer_set_name), os!(x.description)];
    MaterialLayerSetUsage(x) => vec![x.spatial_element_structure.tv(), x.layer_set_direction.tv(), x.direction_sense.tv(), r!(x.offset_from_reference_line), or!(x.reference_extent)];
    PropertySet(x) => cat(root(x), vec![l!(x.properties)]);
    PropertySingleValue(x) => vec![V::Any, V::Any, match &x.value {
        IfcValue::Bool(v) => V::Typed("IFCBOOLEAN".into(), vec![b!(v.0)]),
        IfcValue::Label(v) => V::Typed("IFCLABEL".into(), vec![s!(v.0)]),
        IfcValue::Real(v) => V::Typed("IFCREAL".into(), vec![r!(v.0)]),
        IfcValue::Identifier(v) => V::Typed("IFCIDENTIFIER".into(), vec![s!(v.0)]),
        IfcValue::ThermalTransmittance(v) => V::Typed("IFCTHERMALTRANSMITTANCEMEASURE".into(), vec![r!(v.0)]),
    }, o!(x.unit)];
    MappedItem(x) => vec![idor!(x.source), x.target.tv()];
    RepresentationMap(x) => vec![idor!(x.origin), idor!(x.representation)];
    RelAggregates(x) => cat(root(x), vec![x.relating_object.tv(), l!(x.related_objects)]);
    RelAssociatesMaterial(x) => cat(root(x), vec![l!(x.related_objects), x.relating_material.tv()]);
    RelContainedInSpatialStructure(x) => cat(root(x), vec![l!(x.related_elements), x.relating_structure.tv()]);
    RelDeclares(x) => cat(root(x), vec![x.relating_context.tv(), l!(x.related_definitions)]);
    RelDefinesByProperties(x) => cat(root(x), vec![l!(x.related_objects), x.relating_property_definition.tv()]);
    RelDefinesByType(x) => cat(root(x), vec![l!(x.related_objects), x.relating_type.tv()]);
    RelFillsElement(x) => cat(vec![V::Any; 4], vec![V::Any, x.related_building_element.tv()]);
    RelVoidsElement(x) => cat(vec![V::Any; 4], vec![x.relating_building_element.tv(), x.related_opening_element.tv()]);
    UnitAssigment(x) => vec![l!(x.units)];
    SiUnit(x) => vec![o!(x.dimensions), o!(x.unit_type), o!(x.prefix), x.name.tv()];
    ConversionBasedUnit(x) => vec![o!(x.dimensions), o!(x.unit_type),
        o!(x.name, c => V::Str(c.to_string().trim_matches('\'').to_string())), oidor!(x.conversion_factor)];
    DerivedUnit(x) => vec![l!(x.elements), x.unit_type.tv(), os!(x.user_defined_type)];
    DerivedUnitElement(x) => vec![x.unit.tv(), n(x.exponent.0)];
    DimensionalExponents(x) => vec![
        n(x.length as i64), n(x.mass as i64), n(x.time as i64), n(x.electric_current as i64),
        n(x.thermodynamic_temperature as i64), n(x.amount_of_substance as i64), n(x.luminouse_intensity as i64)];
    MeasureWithUnit(x) => vec![match x.value.custom() {
        Some(p) => V::Typed("IFCPLANEANGLEMEASURE".into(), vec![r!(p.value)]),
        None => idor!(x.value),
    }, x.unit.tv()];
    MonetaryUnit(x) => vec![s!(x.currency)];
}

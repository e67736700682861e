//! The supported entity kinds, their attributes in the order of the standard and the kinds each
//! type-checked reference may point to (written out here as the specification to check against).
//!
//! Attribute language:  `?` optional; `g` globally unique id; `s` text; `r` real; `i` integer;
//! `j` small integer; `b` truth value; `t` time stamp; `e:Name` enumeration; `v2` `v3` coordinates;
//! `V` property value; `M` plane angle measure or reference to one; `#A|B` checked reference to a
//! kind of A or B; `~` unchecked reference; `[x]` list of x.

use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Guid,
    Str,
    Real,
    Int,
    SmallInt,
    Bool,
    Time,
    Enum(&'static str),
    Vec2,
    Vec3,
    Value,
    Measure,
    Ref(Vec<&'static str>),
    Unchecked,
    List(Box<Ty>),
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub opt: bool,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Kind {
    pub name: &'static str,
    pub kw: &'static str,
    pub attrs: Vec<Attr>,
    /// no layout allowed right inside the outer brackets
    pub tight: bool,
}

const SPEC: &str = "
Project IFCPROJECT @root ?s ?s ?s [#GeometricRepresentationContext] ?#UnitAssigment
Site IFCSITE @sse ?[i] ?[i] ?r ?s ?#PostalAddress
Building IFCBUILDING @sse ?r ?r ?#PostalAddress
Storey IFCBUILDINGSTOREY @sse ?r
Space IFCSPACE @sse ?e:SpaceTypeEnum ?r
Wall IFCWALL @element ?#WallType
Slab IFCSLAB @element ?e:SlabTypeEnum
Roof IFCROOF @element ?e:RoofTypeEnum
OpeningElement IFCOPENINGELEMENT @element ?e:OpeningElementTypeEnum
ShadingDevice IFCSHADINGDEVICE @element ?e:ShadingDeviceTypeEnum
Door IFCDOOR @element ?r ?r ?e:DoorTypeEnum ?e:DoorOperationTypeEnum ?s
Window IFCWINDOW @element ?r ?r ?e:WindowTypeEnum ?e:WindowPartitioningTypeEnum ?s
WallType IFCWALLTYPE @elementtype e:WallTypeEnum
SlabType IFCSLABTYPE @elementtype e:SlabTypeEnum
RoofType IFCROOFTYPE @elementtype e:RoofTypeEnum
ShadingDeviceType IFCSHADINGDEVICETYPE @elementtype e:ShadingDeviceTypeEnum
SpaceType IFCSPACETYPE @elementtype e:SpaceTypeEnum ?s
DoorType IFCDOORTYPE @elementtype e:DoorTypeEnum e:DoorOperationTypeEnum ?b ?s
WindowType IFCWINDOWTYPE @elementtype e:WindowTypeEnum e:WindowPartitioningTypeEnum ?b ?s
ActorRole !IFCACTORROLE e:Role ?s ?s
TelecomAddress !IFCTELECOMADDRESS ?s ?s ?s ?[s] ?[s] ?s ?[s] ?s
PostalAddress !IFCPOSTALADDRESS ?s ?s ?s ?s ?[s] ?s ?[s] ?s ?s ?s
Application !IFCAPPLICATION #Organization s s s
Organization IFCORGANIZATION ?s s ?s ?[#ActorRole] ?[#TelecomAddress|PostalAddress]
OwnerHistory IFCOWNERHISTORY ?#PersonAndOrganization ?#Application ?e:AccessState e:ChangeAction ?t ?#PersonAndOrganization ?#Application t
Person IFCPERSON ?s ?s ?s ?[s] ?[s] ?[s] ?[#ActorRole] ?[#TelecomAddress|PostalAddress]
PersonAndOrganization IFCPERSONANDORGANIZATION #Person #Organization ?[#ActorRole]
ArbitraryClosedProfileDef IFCARBITRARYCLOSEDPROFILEDEF e:ProfileType ?s #IndexedPolyCurve|PolyLine
Axis2D !IFCAXIS2PLACEMENT2D #Point2D ?#Direction2D
Axis3D !IFCAXIS2PLACEMENT3D #Point3D ?#Direction3D ?#Direction3D
Direction2D !IFCDIRECTION v2
Direction3D !IFCDIRECTION v3
Point2D !IFCCARTESIANPOINT v2
Point3D !IFCCARTESIANPOINT v3
PointList2D !IFCCARTESIANPOINTLIST2D [v2] ?[s]
PointList3D !IFCCARTESIANPOINTLIST3D [v3] ?[s]
ExtrudedAreaSolid IFCEXTRUDEDAREASOLID #RectangleProfileDef|ArbitraryClosedProfileDef ?#Axis3D #Direction3D r
IndexedPolyCurve !IFCINDEXEDPOLYCURVE #PointList2D|PointList3D ?s ?b
LocalPlacement IFCLOCALPLACEMENT ?#LocalPlacement #Axis2D|Axis3D
PolyLine IFCPOLYLINE [#Point2D|Point3D]
ProductDefinitionShape IFCPRODUCTDEFINITIONSHAPE ?s ?s [#ShapeRepresentation]
RectangleProfileDef IFCRECTANGLEPROFILEDEF e:ProfileType ?s ?#Axis2D|Axis3D r r
GeometricRepresentationContext !IFCGEOMETRICREPRESENTATIONCONTEXT ?e:RepresentationIdentifier ?s e:DimensionCount ?r #Axis2D|Axis3D ?#Direction2D|Direction3D
GeometricRepresentationSubContext !IFCGEOMETRICREPRESENTATIONSUBCONTEXT ?e:RepresentationIdentifier ?s ?e:DimensionCount ?r ?#Axis2D|Axis3D ?#Direction2D|Direction3D #GeometricRepresentationContext ?r e:GeometricProjection ?s
ShapeRepresentation IFCSHAPEREPRESENTATION #GeometricRepresentationSubContext|GeometricRepresentationContext ?e:RepresentationIdentifier ?e:RepresentationType [#ExtrudedAreaSolid|PolyLine|MappedItem]
CartesianTransformationOperator3D IFCCARTESIANTRANSFORMATIONOPERATOR3D @transform
CartesianTransformationOperator3DnonUniform IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM @transform ?r ?r
Material IFCMATERIAL ?s ?s ?s
MaterialConstituent IFCMATERIALCONSTITUENT ?s ?s #Material ?r ?s
MaterialConstituentSet IFCMATERIALCONSTITUENTSET ?s ?s [#MaterialConstituent]
MaterialLayer IFCMATERIALLAYER ?#Material r b ?s ?s ?s ?i
MaterialLayerSet IFCMATERIALLAYERSET [#MaterialLayer] ?s ?s
MaterialLayerSetUsage IFCMATERIALLAYERSETUSAGE #MaterialLayerSet e:LayerSetDirectionEnum e:DirectionSenseEnum r ?r
PropertySet IFCPROPERTYSET @root [#PropertySingleValue]
PropertySingleValue IFCPROPERTYSINGLEVALUE ?s ?s V ?~
MaterialProperties IFCMATERIALPROPERTIES ?s ?s [~] #Material
MappedItem IFCMAPPEDITEM #RepresentationMap #CartesianTransformationOperator3DnonUniform|CartesianTransformationOperator3D
RepresentationMap IFCREPRESENTATIONMAP #Axis3D #ShapeRepresentation
RelAggregates IFCRELAGGREGATES @root #Project|Site|Building|Storey [#Site|Building|Storey|Space]
RelAssociatesMaterial IFCRELASSOCIATESMATERIAL @root [~] #MaterialConstituentSet|MaterialLayerSetUsage|MaterialLayerSet|Material
RelContainedInSpatialStructure IFCRELCONTAINEDINSPATIALSTRUCTURE @root [#Site|Building|Storey|OpeningElement|Slab|Roof|Wall|Window|Door|ShadingDevice] #Site|Building|Storey|OpeningElement|Slab|Roof|Wall|Window|Door
RelDeclares IFCRELDECLARES @root #Project [~]
RelDefinesByProperties IFCRELDEFINESBYPROPERTIES @root [~] ~
RelDefinesByType IFCRELDEFINESBYTYPE @root [~] ~
RelFillsElement IFCRELFILLSELEMENT @root #OpeningElement #Building|OpeningElement|Slab|Wall|Window|Door
RelVoidsElement IFCRELVOIDSELEMENT @root #Building|OpeningElement|Slab|Wall|Window #OpeningElement
UnitAssigment IFCUNITASSIGNMENT [#SiUnit|ConversionBasedUnit|DerivedUnit|MonetaryUnit]
SiUnit IFCSIUNIT ?~ ?e:IfcUnitEnum ?e:IfcPrefix e:IfcUnitName
ConversionBasedUnit IFCCONVERSIONBASEDUNIT ?~ ?e:IfcUnitEnum ?e:ConversionUnitName ?#MeasureWithUnit
DerivedUnit IFCDERIVEDUNIT [#DerivedUnitElement] e:DerivedUnitEnum ?s
DerivedUnitElement IFCDERIVEDUNITELEMENT #SiUnit i
DimensionalExponents IFCDIMENSIONALEXPONENTS j j j j j j j
MeasureWithUnit IFCMEASUREWITHUNIT M #SiUnit
MonetaryUnit IFCMONETARYUNIT s
";

fn macros(t: &'static str) -> Vec<&'static str> {
    let root = ["g", "?#OwnerHistory", "?s", "?s"];
    let mut v: Vec<&'static str> = root.to_vec();
    let product = ["?s", "?#Axis3D|Point3D|LocalPlacement", "?#ProductDefinitionShape"];
    match t {
        "@root" => {}
        "@sse" => {
            v.extend(product);
            v.extend(["?s", "?e:CompositionTypeEnum"]);
        }
        "@element" => {
            v.extend(product);
            v.push("?s");
        }
        "@elementtype" => v.extend(["?~", "?[~]", "?[#RepresentationMap]", "?s", "?s"]),
        "@transform" => {
            return vec!["?#Direction3D", "?#Direction3D", "?#Point3D", "?r", "?#Direction3D"]
        }
        t => return vec![t],
    }
    v
}

fn ty(t: &'static str) -> Ty {
    match t {
        "g" => Ty::Guid,
        "s" => Ty::Str,
        "r" => Ty::Real,
        "i" => Ty::Int,
        "j" => Ty::SmallInt,
        "b" => Ty::Bool,
        "t" => Ty::Time,
        "v2" => Ty::Vec2,
        "v3" => Ty::Vec3,
        "V" => Ty::Value,
        "M" => Ty::Measure,
        "~" => Ty::Unchecked,
        _ => {
            if let Some(e) = t.strip_prefix("e:") {
                Ty::Enum(e)
            } else if let Some(l) = t.strip_prefix('#') {
                Ty::Ref(l.split('|').collect())
            } else if let Some(l) = t.strip_prefix('[') {
                Ty::List(Box::new(ty(l.strip_suffix(']').unwrap())))
            } else {
                panic!("schema: {t}")
            }
        }
    }
}

fn attr(t: &'static str) -> Attr {
    match t.strip_prefix('?') {
        Some(t) => Attr { opt: true, ty: ty(t) },
        None => Attr { opt: false, ty: ty(t) },
    }
}

pub struct Schema {
    pub kinds: Vec<Kind>,
    pub by_name: HashMap<&'static str, usize>,
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut kinds = Vec::new();
        let mut by_name = HashMap::new();
        for l in SPEC.lines().filter(|l| !l.trim().is_empty()) {
            let mut w = l.split_whitespace();
            let name = w.next().unwrap();
            let kw = w.next().unwrap();
            let (tight, kw) = match kw.strip_prefix('!') {
                Some(k) => (true, k),
                None => (false, kw),
            };
            let attrs = w.flat_map(macros).map(attr).collect();
            by_name.insert(name, kinds.len());
            kinds.push(Kind { name, kw, attrs, tight });
        }
        for k in &kinds {
            for a in &k.attrs {
                let t = if let Ty::List(t) = &a.ty { t } else { &a.ty };
                if let Ty::Ref(ts) = t {
                    for t in ts {
                        assert!(by_name.contains_key(t), "schema: unknown kind {t}");
                    }
                }
            }
        }
        Schema { kinds, by_name }
    })
}

pub fn kind(name: &str) -> &'static Kind {
    let s = schema();
    &s.kinds[*s.by_name.get(name).unwrap_or_else(|| panic!("no kind {name}"))]
}

/// the supported kind an instance with this keyword and these arguments has (by the schema)
pub fn kind_of(kw: &str, args: &[crate::step::V]) -> Option<&'static Kind> {
    let kw = crate::step::norm_kw(kw);
    let mut c = schema().kinds.iter().filter(|k| k.kw == kw);
    let first = c.next()?;
    match c.next() {
        None => Some(first),
        Some(second) => match args.first().map(|a| a.list().len()) {
            Some(2) => Some(first),
            Some(3) => Some(second),
            _ => None,
        },
    }
}

/// all instance numbers occurring in a value
pub fn refs_in(v: &crate::step::V, out: &mut Vec<u64>) {
    use crate::step::V;
    match v {
        V::Ref(r) => out.push(*r),
        V::List(l) | V::Typed(_, l) => l.iter().for_each(|x| refs_in(x, out)),
        _ => {}
    }
}

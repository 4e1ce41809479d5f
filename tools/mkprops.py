#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,obs,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,meaning="state the property constrains",where=files[0])],observe_at=[obs],hook_needed=None)))
B="src/base/"
p("C01","Adjacency answers are mutually inverse after any edit history",
 "In a mesh kept in a full representation (F1, the default, or F4), after any sequence of creating, connecting, re-connecting, deleting and restoring vertices, edges, faces and regions, every upward or lateral adjacency answer (entities using a given entity, neighbours through a shared entity, counts, ID-array forms, 'uses' and 'common entity' queries) is exactly the one implied by the current downward connectivity. No answer contains a duplicate, a deleted entity, or misses a current user.",
 ["histories","inputs"],"all edit histories over all valid 1D/2D/3D meshes in representations F1 and F4 (face neighbour lists only exist in F1)",
 "unit tests sample a few static meshes; the upward lists are maintained incrementally by every editing routine, so only the whole space of edit orders exercises them",
 [B+"MVertex_F1.c",B+"MVertex_F4.c",B+"MEdge_F1.c",B+"MEdge_F4.c",B+"MFace_F1.c",B+"MFace_F4.c",B+"MRegion_F1.c",B+"MRegion_F4.c",B+"MF_Region_Funcs_F1F3.c",B+"MR_Face_Funcs_FNR3R4.c"],
 [("upward adjacency list maintenance","MV_Add_Edge/MV_Rem_Edge, ME_Add_Face, MF_Add_Region and the per-representation query functions")],
 "vertex-edge, edge-face (edge-region in F4), face-region upward lists","return of every adjacency query after every editing call")
p("C02","Every mesh representation gives the same answers for the same mesh",
 "Building the same mesh in the full representations F1 and F4 or the reduced representation R1, taking cells away and putting them back, gives the same vertices, edges, faces and regions as seen through the query interface: the same adjacencies (upward, downward and lateral, with the same counts and directions) when entities are identified by their vertices, the same element types and the same boundary cycles; copying a mesh, or writing it to a native, GMV or Exodus II file and reading that, into the same or another representation, gives that mesh again, with its coordinates and (where the format keeps them) classifications.",
 ["configurations","inputs"],"all valid surface meshes (F1, F4) and solid meshes of standard elements (F1, F4, R1), all orders of adding and removing cells; region neighbours only where faces are stored",
 "tests query mostly F1; the five implementations of each query are separate code and only a cross-representation comparison over many meshes shows that they agree",
 [B+"MVertex_R1.c",B+"MFace_R1.c",B+"MRegion_R1.c",B+"MR_Vertex_Funcs_R1.c",B+"MR_Edge_Funcs_R1.c",B+"MR_Face_Funcs_R1.c",B+"MF_Region_Funcs_R1.c",B+"ME_Face_Funcs_R1R2.c",B+"MVertex_F4.c",B+"MEdge_F4.c",B+"MF_Region_Funcs_F2F4.c"],
 [("representation jump tables","M*_jmp.h tables select one implementation per representation")],"stored adjacencies of each representation","query results in terms of vertices")
p("C03","Face boundary queries describe one consistent closed cycle",
 "For every face, however it was built or edited, the ordered edges, their directions, the ordered vertices and the edge-direction queries describe the same single closed cycle; asking for the reverse direction reverses it, asking for a start vertex rotates it to begin there, and replacing a run of edges by another run between the same vertices, removing an edge, or reversing the use of an edge changes exactly the requested part. Faces with many edges behave like small ones.",
 ["histories","inputs"],"all faces of a mesh in a full representation (F1 or F4) with 3 up to 30 edges (the supported maximum MAXPV2), all start vertices, both directions, all split/join/replace/remove/reverse edits",
 "direction flags are packed bits that are rotated and shifted by edits; tests use triangles and quads mostly unedited",
 [B+"MF_Edge_Funcs_F1F3.c",B+"MF_Edge_Funcs_F2F4.c",B+"MF_Vertex_Funcs_F1F3.c",B+"MF_Vertex_Funcs_R1.c",B+"MFace.c"],
 [("packed edge directions","MF_Set_Edges, MF_Replace_Edges_i, MF_Rem_Edge, MF_EdgeDir_i")],"edge list and direction bits of a face","MF_Edges, MF_Vertices, MF_EdgeDir(_i), MF_EdgeIDs, MF_VertexIDs after each edit")
p("C04","Regions record face sides correctly and form closed shells",
 "For every region, the direction recorded for each of its faces is the one given at construction or by the last edit, the face reports that region on the corresponding side and on no other, a face never has more than two regions, and reversing, replacing or removing faces changes exactly what was asked. Regions with many faces behave like small ones.",
 ["histories","inputs"],"all regions from 4 up to at least 70 faces in a full representation (F1 or F4), all reverse/replace/remove edits that leave at most one region on each side of a face",
 "face directions are packed bits over several words and sides are encoded in two slots; tests use tets and hexes",
 [B+"MR_Face_Funcs_FNR3R4.c",B+"MF_Region_Funcs_F1F3.c",B+"MF_Region_Funcs_F2F4.c",B+"MRegion_FNR3R4.c"],
 [("packed face directions and face side slots","MR_Set_Faces, MR_Rev_FaceDir(_i), MR_Set_FaceDir, MF_Add_Region/MF_Rem_Region")],"face list and direction bits of a region, region slots of a face","MR_FaceDir(_i), MF_Region, MF_RegionID, MF_Regions")
p("C05","Standard elements are recognised and keep their vertex numbering",
 "A tetrahedron, pyramid, prism or hexahedron built from its vertices in the documented order, or from its faces in any order and orientation, is reported with the right element type, has exactly the template's faces and edges, reuses existing faces and edges instead of duplicating them, and lists its vertices in an order that is again a valid (positively oriented) documented numbering; other shapes are reported as polygons or polyhedra.",
 ["inputs"],"all standard solids and faces under all vertex relabellings, all face orders, starting edges and orientations, built next to arbitrary existing neighbours",
 "the number of face orders and orientations is far beyond what tests can enumerate by hand",
 [B+"MR_Vertex_Funcs_FNR3R4.c",B+"MR_Face_Funcs_FNR3R4.c",B+"MRegion.c",B+"MFace.c"],
 [("element templates","MR_Set_Vertices and MR_Vertices templates in MRegion_FNR3R4/MSTK_private tables")],"element connectivity","MR_Vertices, MR_ElementType, MF_ElementType, MR_Faces")
p("C06","Entities are counted, iterated, identified and looked up exactly once",
 "At any moment the counts, index access, iteration and lookup by local ID agree: every live entity is visited exactly once, new IDs are unique within the dimension, looking up an ID yields the entity that carries it or nothing, and renumbering in the given order makes IDs contiguous from 1 without changing the mesh.",
 ["histories","inputs"],"all histories of creation, deletion (immediate or deferred), restoration, ID assignment, search enabling and renumbering",
 "lookup uses a positional fast path, a binary search and a linear scan depending on history",
 [B+"Mesh.c",B+"MEntity.c","src/util/List.c","src/hilev/MESH_Renumber.c"],
 [("lists sorted by local ID","MESH_Add_*/MESH_Rem_*, MESH_*FromID, MESH_Enable_LocalIDSearch")],"per-dimension entity lists and sorted flags","MESH_Num_*, MESH_Next_*, MESH_Vertex(i).., MESH_*FromID")
p("C07","Deleting, keeping and restoring entities is exact",
 "Deleting an entity removes it from its mesh and from the adjacency of everything it used and changes nothing else; an entity deleted with the keep option stays readable, is reported as deleted with its original dimension, and restoring it brings back exactly the connectivity, classification, ID and attribute values it had.",
 ["histories"],"all interleavings of deletions and restorations of vertices, edges, faces and regions in a full representation (F1 or F4)",
 "tests delete one entity at a time; a restore after other edits relinks several lists in an order-dependent way",
 [B+"MEntity.c",B+"MVertex.c",B+"MEdge_F1.c",B+"MFace_F1.c",B+"MRegion_F1.c",B+"Mesh.c"],
 [("M*_Delete_F*/M*_Restore_F*","src/base/M*_F1.c, M*_F4.c")],"mesh lists, adjacency lists, deleted marker","state after every delete and restore")
p("C08","Lists behave as ordered sequences under every operation mix",
 "A list behaves as an ordered sequence: append, conditional append, insertion, removal by value, by position and from sorted lists, replacement, concatenation, copying, compression, sorting, search, counting, positional access and iteration return what the sequence semantics say, for every interleaving and any length, including removals during iteration.",
 ["histories","inputs"],"all operation sequences over lists of any length including large ones with holes left by removals",
 "removal leaves holes that are compacted lazily, so results depend on the operation history",
 ["src/util/List.c"],[("lazy hole compaction and first-hole tracking","src/util/List.c")],"entry array, number of entries, number of holes, first hole","return value of every List_ call")
p("C09","Entity sets behave as ordered sets and follow mesh edits",
 "Entity sets keep exactly the members added and not removed, membership, position, counting and iteration agree with that, and union, intersection and difference are the mathematical ones; when merging replaces an entity by another, every set that contained the replaced entity contains the surviving one exactly once; sets are found by name exactly while they exist.",
 ["histories","inputs"],"all sequences of set creation, renaming, insertion, removal, replacement, set algebra and entity merging",
 "the interaction of set edits, hashing and mesh edits is history dependent",
 [B+"MSet.c",B+"Mesh.c","src/mod/MVs_Merge_FN.c","src/mod/MEs_Merge_FN.c","src/mod/MFs_Merge_FN.c"],
 [("set membership list","src/base/MSet.c")],"set name, dimension and members","MSet_ queries, MESH_MSetByName")
p("C10","Attribute values are what was last set, per entity and attribute",
 "Reading an attribute on an entity gives the value last set on that entity for that attribute, of the attribute's type and number of components, independent of other entities and attributes; a value that was never set or was removed reads as absent, a cleared one as zero or NULL; vector and tensor values are copied on setting; attributes are found by name exactly while they exist.",
 ["histories","inputs"],"all histories of attribute creation, deletion, clearing, setting and removal over integer, double, pointer, vector and tensor attributes on all entity dimensions",
 "values live in per-entity lists searched by attribute; tests set one or two",
 [B+"MAttrib.c",B+"MEntity.c",B+"Mesh.c"],[("per-entity attribute instance list","MEnt_Set_AttVal and MEnt_Get_AttVal")],"attribute instances","MEnt_Get_*AttVal, MESH_AttribByName")
M="src/mod/"
p("C11","Splitting edges, faces and regions refines exactly the split entity",
 "Splitting an edge at one or several points, a face at a point or along a new edge, a region along a loop of edges, or an edge or face of a simplex mesh replaces exactly the split entity and the entities that must change with it by parts that cover it, that inherit its classification and orientation and stay properly connected to all former neighbours, leaving everything else unchanged and the mesh topologically valid.",
 ["inputs","histories"],"all split operations at every eligible entity of any valid mesh, after any preceding operations",
 "tests split one entity of one mesh; orientation cases and neighbours multiply",
 [M+"ME_Split.c",M+"ME_MultiSplit.c",M+"MF_Split.c",M+"MF_Split_with_Edge.c",M+"ME_Split_SimplexMesh.c",M+"MF_Split_SimplexMesh.c",M+"MR_Split_with_EdgeLoop.c"],
 [("split operators","src/mod/M*_Split*.c")],"mesh connectivity and classification","full mesh before and after each split")
p("C12","Edge collapse contracts exactly one edge or refuses cleanly",
 "Collapsing an edge of a mesh where the collapse is topologically possible (the elements around it only degenerate or become identical in pairs along it, and classification permits those merges when it is to be respected) either refuses and leaves the mesh untouched, or moves every use of the removed vertex to the kept one, removes exactly the elements that degenerate, merges edges and faces that became identical onto one survivor each, respects classification when asked to (the end on the lower-dimensional model entity survives, ends on different model entities of the same dimension are not joined, whatever the edge itself lies on), and reports exactly the entities deleted and the merged pairs.",
 ["inputs","histories"],"all edges, kept-vertex choices and topology flags of triangle, quad, tet and mixed meshes after any preceding operations",
 "the merge cascade depends on classification, boundary position and global numbering of the neighbourhood",
 [M+"ME_Collapse.c",M+"MVs_Merge_FN.c",M+"MEs_Merge_FN.c",M+"MFs_Merge_FN.c"],[("edge collapse","src/mod/ME_Collapse.c")],"mesh connectivity, deleted and merged lists","full mesh before and after each collapse")
p("C13","Merging, joining and swapping preserve the rest of the mesh",
 "Merging two vertices, edges or faces redirects every use of the second one to the first and removes only the second; joining two faces across an edge or two regions across a face yields one entity whose boundary is the combined boundary, consistently oriented, and swapping an edge of two triangles yields the other diagonal; operations that are not allowed (different regions, different classification with the topology flag) change nothing.",
 ["inputs","histories"],"all eligible and ineligible merges, joins and swaps in valid meshes after any preceding operations",
 "orientation and adjacency cases are numerous and depend on history",
 [M+"MVs_Merge_FN.c",M+"MEs_Merge_FN.c",M+"MFs_Merge_FN.c",M+"MFs_Join.c",M+"MRs_Join.c",M+"ME_Swap2D.c"],[("merge, join and swap operators","src/mod")],"mesh connectivity","full mesh before and after each operation")
p("C14","A mesh copy is an independent, faithful duplicate",
 "Copying a mesh yields the same connectivity with directions, coordinates, classification, IDs, and, when requested, the same attribute values (other than pointers; an unset value and zero are the same) and entity sets, for every mesh; later edits of either mesh do not affect the other.",
 ["inputs","histories"],"all meshes with any attributes and sets, with and without the copy options, followed by edits of one copy",
 "tests copy one mesh without modification afterwards",
 [B+"MESH_Copy.c"],[("MESH_Copy","src/base/MESH_Copy.c")],"source and destination mesh","full projection of both meshes after copying and after editing either")
p("C15","Writing and reading the native format preserves the mesh",
 "Writing a mesh to a native file and reading it back, in any representation the format supports, gives the same vertices, coordinates, connectivity with directions, classification and attribute values.",
 ["inputs","configurations"],"all meshes, attributes and source/target representations",
 "file content depends on deleted entities, ID gaps, representation and attribute types that tests do not combine",
 [B+"MESH_WriteToFile.c",B+"MESH_InitFromFile.c"],[("native reader and writer","MESH_WriteToFile, MESH_InitFromFile")],"file content","mesh re-read from the file")
p("C16","Writing and reading Exodus II preserves mesh, blocks and sets",
 "Exporting a mesh whose vertices, edges and faces all belong to elements to Exodus II and importing it gives back the same elements with the same node coordinates and types, the same element blocks, and the same side sets, node sets and element sets (named sideset_N, nodeset_N, elemset_N) and real-valued, vector and tensor element or node variables that were attached (a variable not set somewhere reads as zero there). Elements of blocks that mix types or hold pyramids or polyhedra must be convex, because the format leaves the orientation of their faces to geometry.",
 ["inputs","configurations"],"all surface and solid meshes of standard and polygonal/polyhedral elements with any sets, blocks and attributes",
 "tests compare a few fixed files; block mixing and ID gaps are not covered",
 ["src/io/MESH_ExportToExodusII.c","src/io/MESH_ImportFromExodusII.c","src/io/MESH_ReadExodusII_Serial.c"],[("Exodus II reader and writer","src/io")],"file content","mesh re-read from the file")
p("C17","Other export formats describe the same mesh",
 "A mesh whose edges and faces all belong to its elements, written to GMV with any of the writer options and read again, has the same elements, connectivity and element orientation, vertices at the same coordinates (as far as the decimals in the file go), elements grouped by material as they were by model entity, vertices classified on entities of the same dimension, and the integer and real attributes that were asked for with their values; a triangulated surface written to STL lists each triangle once with its corners in order and its unit normal, and a surface written to OFF lists the points and, counted from zero, the corners of every face in order. Writing a file changes nothing in the mesh.",
 ["inputs"],"all meshes the formats can express",
 "writers walk mesh lists and IDs whose state depends on history",
 ["src/io/MESH_ExportToGMV.c","src/io/MESH_ImportFromGMV.c","src/io/MESH_ExportToFLAGX3D.c","src/io/MESH_ImportFromFLAGX3D.c","src/io/MESH_ExportToSTL.c","src/io/MESH_ExportToOFF.c"],[("readers and writers","src/io")],"file content","re-imported mesh or parsed file")
H="src/hilev/"
p("C18","Generated and described meshes are exactly the requested ones",
 "Generating a structured mesh of given extents and cell counts, or building a mesh from a list of points and elements, produces exactly those cells, a conforming mesh with the coordinates of the requested grid or list and, for the structured generator, the documented classification on the box's corners, edges, faces and interior.",
 ["inputs"],"all cell counts in one, two and three directions, all extents, all valid element lists",
 "tests use one size; index arithmetic errors show for unequal counts",
 [H+"MESH_Gen_Structured.c",H+"MESH_InitFromGenDesc.c"],[("generator index arithmetic","MESH_Gen_Structured")],"generated mesh","full projection of the generated mesh")
p("C19","Classification inference matches the mesh boundary",
 "Building classification leaves the mesh as it is and classifies every entity by adjacency. Regions keep their model region (those without one get a new one of their own). A mesh face is on a model face exactly when it is on the outer boundary or between two different model regions, and in the model region otherwise; a mesh edge is on a model face exactly when the faces around it that lie on model faces are two of the same model face, in the region when there are none, and on a model edge otherwise; a vertex is on the model edge, model face or region in the same way, and a model vertex otherwise. Without geometry, boundary faces share a model face exactly when they separate the same two model regions, edges share a model edge exactly when they bound the same model faces, and given classification of boundary faces is kept; with geometry, model faces and model edges are exactly the connected pieces without a bend sharper than the documented 150 degrees. Nothing is classified on a lower-dimensional model entity than something that bounds it.",
 ["inputs"],"all solid and surface meshes with any partition of cells into model regions, with and without geometric tests",
 "tests compare a handful of fixed meshes",
 [H+"MESH_BuildClassfn.c",H+"MESH_BuildFaceClassfn.c",H+"MESH_BuildEdgeClassfn.c",H+"MESH_BuildVertexClassfn.c"],[("classification propagation","MESH_Build*Classfn")],"GEntDim/GEntID of all entities","classification of the whole mesh")
p("C20","The element graph is the adjacency of elements through sides",
 "The element adjacency graph of a mesh whose elements are numbered 1 to n in order lists for every element exactly the elements that share a side with it, once per shared side, and the graph is symmetric. The graph read straight from an Exodus II file is the same graph, over the element numbers of the file.",
 ["inputs"],"all surface and solid meshes of any size, including boundary-only elements and many elements",
 "array growth and boundary sides depend on mesh size and shape",
 [H+"MESH_GetElementGraph.c","src/io/ExodusII_GetElementGraph.c"],[("compressed adjacency construction","MESH_GetElementGraph")],"adjacency arrays","returned arrays")
p("C21","Renumbering is a permutation that leaves the mesh unchanged",
 "Renumbering vertices, edges, faces or regions, sequentially or by bandwidth-reducing order, assigns each of 1..n to exactly one entity of that dimension and changes no connectivity, coordinates, classification, sets or attributes (a work attribute may be added), and lookup by the new IDs works.",
 ["inputs","histories"],"all meshes including disconnected ones, isolated entities and meshes with deleted entities",
 "the ordering walks the adjacency graph; disconnected parts and odd shapes are not in the tests",
 [H+"MESH_Renumber.c","src/util/Graph_renumber.c"],[("reverse Cuthill-McKee","src/hilev/MESH_Renumber.c")],"IDs","IDs and connectivity before and after")
p("C22","Tet-to-hex, tri-to-quad and interior removal are exact",
 "Converting a tetrahedral mesh to hexahedra or a triangle mesh to quadrilaterals yields for each element the four (three) template elements on shared vertices, edge midpoints, face and cell centres, conforming across neighbours with inherited classification of elements and vertices, and leaves the source unchanged; removing the interior removes exactly the entities classified on the interior (on model entities of the mesh's dimension) and leaves the others unchanged.",
 ["inputs"],"all tetrahedral and triangle meshes and all classified meshes",
 "orientation of each source element matters and tests use one mesh",
 [H+"MESH_Tet2Hex.c",H+"MESH_Tri2Quad.c",H+"MESH_DelInterior.c"],[("conversion templates","MESH_Tet2Hex, MESH_Tri2Quad")],"converted mesh","full projection of both meshes")
p("C23","The topology checker accepts valid meshes and rejects broken ones",
 "The topology check changes nothing, reports success on every valid mesh and failure on a broken one: faces of a region used in inconsistent directions, two regions using the same side of a face, an edge or face classified on a lower-dimensional model entity than a vertex or edge that bounds it, a face inside a model region that does not have two regions, an edge on a model face that does not lie between exactly two faces of that model face, or a vertex on a model face with no face on a model face around it.",
 ["inputs","histories"],"all valid meshes and all single corruptions of directions, sides and classification of them",
 "tests only check valid meshes; a checker that accepts everything passes them",
 [H+"MESH_CheckTopo.c"],[("checks per dimension","MESH_CheckTopo")],"return value","MESH_CheckTopo result on valid and corrupted meshes")
p("C24","Implied edges and faces of the reduced representation R1 are identified by their vertices",
 "In the reduced representation R1, an edge or face that is not stored is identified by its vertices, whichever query returned it: two edges or faces obtained from different queries are reported the same exactly when they have the same vertices (faces: the same cycle, walked from any vertex in either direction), the common edge of two vertices exists exactly when a cell has an edge between them, and using such an edge or face in another query (whether a face or region uses it, in which direction, which faces and regions are at it) gives the answer for the entity with those vertices.",
 ["histories"],"all solid meshes of standard elements in R1 (the same for stored edges and faces in F1 and F4), all combinations of queries the two edges or faces come from, after any adding and removing of cells",
 "each query makes its own objects for implied entities, so any two queries must be combined; tests query reduced meshes hardly at all",
 [B+"MEdge.c",B+"MF_Vertex_Funcs_R1.c",B+"MF_Edge_Funcs_R1.c",B+"MR_Edge_Funcs_R1.c",B+"MR_Face_Funcs_R1.c",B+"ME_Face_Funcs_R1R2.c",B+"MF_Region_Funcs_R1.c"],[("comparison by vertices","MEs_AreSame, MFs_AreSame_R1, MVs_CommonEdge, uses and direction queries")],"vertex lists of cells and of implied entities","answers of comparison, uses and direction queries")
R="src/par/"
p("C25","Distributing a mesh conserves it and gives each entity one owner",
 "Distributing a mesh over processes puts every element on exactly the process its partition number names as an owned element, the union of owned entities is the original mesh with each entity owned exactly once, shared copies have the same global ID, coordinates, classification and connectivity as the owner's, and, when asked for, attributes (of a numeric type on one kind of entity) and sets arrive with their values. This is about meshes in which every entity belongs to an element and partitions that leave no part empty.",
 ["inputs","configurations","schedules"],"all meshes, partition vectors, process counts, ghost ring choices and attribute options",
 "tests use one or two meshes on 4 or 8 processes with a fixed partitioner",
 [R+"MSTK_Mesh_Distribute.c",R+"MESH_Partition.c",R+"MESH_BuildSubMesh.c",R+"MESH_Partition_and_Send.c",R+"MESH_SendMesh.c",R+"MESH_RecvMesh.c"],[("partition and send","MSTK_Mesh_Distribute")],"per-process meshes with global IDs and owners","per-process projection after distribution")
p("C26","The ghost layer is complete and correctly labelled",
 "After distribution or weaving with one ghost layer, each process holds, besides its own elements, exactly the elements of other processes that touch its owned elements at a vertex, and exactly the entities these elements are made of, every ghost names the owning process, every owned entity that is a ghost elsewhere is labelled as overlap and every other entity as interior, and the ghost and overlap lists and counts agree with the labels. Deleting entities that nothing else uses, on all processes that have them or only where they are ghosts, removes exactly these entities and leaves labels, owners, lists, identifiers, values and sets of all others as they were.",
 ["inputs","configurations","schedules"],"all meshes, partition vectors and process counts including empty and disconnected parts",
 "ghost completeness is a property of the partition shape",
 [R+"MESH_AddGhost.c",R+"MESH_BuildGhostList.c",R+"MESH_LabelPType.c",R+"MESH_Parallel_AddGhost.c",R+"MESH_BuildPBoundary.c"],[("ghost construction","MESH_AddGhost, MESH_Parallel_AddGhost")],"processor type and master process per entity","per-process projection")
p("C27","Global IDs identify the same entity on every process",
 "At all times after distribution or weaving, two entities of the same dimension on different processes have the same global ID exactly when they are copies of one entity; renumbering global IDs keeps this and makes the owned IDs of each dimension a contiguous range from 1 over all processes, and lookup by global ID finds the local copy exactly when there is one.",
 ["inputs","configurations","schedules","histories"],"all meshes, partitions, process counts and orders of renumbering and lookup",
 "ID exchange happens along process boundaries whose shape tests do not vary",
 [R+"MESH_AssignGlobalIDs.c",R+"MESH_AssignGlobalIDs_point.c",R+"MESH_Renumber_GlobalIDs.c",B+"Mesh.c"],[("global ID assignment and search","MESH_Renumber_GlobalIDs, MESH_*FromGlobalID")],"global IDs","per-process projection")
p("C28","Attribute update makes every ghost equal its owner",
 "After an attribute update every ghost entity that participates has its owner's value, in type and number of components, every owned value is unchanged, and nothing else changes, whatever values (zeros, nothing), and on whichever subset of entities, were set before.",
 ["inputs","configurations","schedules"],"all attribute types and dimensions, partitions, process counts, and message interleavings",
 "tests use one mesh and uniform values",
 [R+"MESH_UpdateAttributes.c",R+"MESH_Update1Attribute.c"],[("owner to ghost exchange","MESH_Update1Attribute")],"attribute values","values on all processes before and after")
p("C29","Gather-scatter reduces over all copies of an entity",
 "A gather-scatter leaves on every copy of an entity the sum, minimum or maximum (as requested) of the values its copies on all processes had before, and changes nothing else.",
 ["inputs","configurations","schedules"],"all operations, integer and double attributes of all dimensions, partitions and process counts",
 "results depend on which processes share an entity; tests use one layout",
 [R+"MESH_GathScat1Attribute.c"],[("gather then scatter","MESH_GathScat1Attribute")],"attribute values","values on all processes before and after")
p("C30","Edge/face attribute exchange and coordinate update are exact",
 "Updating vertex coordinates makes each ghost vertex's coordinates equal its owner's and changes no other; exchanging an edge or face attribute across process boundaries gives each ghost element side the value held by the process that owns it and the reverse for the owner, and changes nothing else.",
 ["inputs","configurations","schedules"],"all meshes, partitions, values and process counts",
 "one layout in the tests",
 [R+"MESH_UpdateVertexCoords.c",R+"MESH_XchngEdgeFaceAttrib.c"],[("coordinate and side exchange","src/par")],"coordinates and attribute values","values on all processes before and after")
p("C31","Weaving separately built partitions reproduces the distributed mesh",
 "Weaving meshes that were built independently on each process, given vertex global IDs or only (distinct) vertex coordinates, yields the same owners, sharing and ghost layer as distributing the whole mesh with the same partition, up to the choice of owner for shared entities.",
 ["inputs","configurations","schedules"],"all conforming partitions of all meshes over all process counts, with and without global IDs",
 "boundary matching depends on the shape of the shared boundary",
 [R+"MSTK_Weave_DistributedMeshes.c",R+"MESH_AssignGlobalIDs.c",R+"MESH_BuildConnection.c",R+"MESH_ParallelAdj.c"],[("boundary matching","MSTK_Weave_DistributedMeshes")],"per-process meshes","per-process projection after weaving")
p("C32","The parallel checker accepts consistent and rejects corrupted meshes",
 "The parallel consistency check succeeds on every correctly distributed mesh and fails on every corruption of the global ID, owner or coordinates of one shared entity that makes a process disagree with the owner.",
 ["inputs","configurations"],"all distributed meshes and all single corruptions of a shared entity",
 "tests only run it on good meshes",
 [R+"MESH_Parallel_Check.c"],[("pairwise comparison of ghosts and owners","MESH_Parallel_Check")],"return value on each process","MESH_Parallel_Check result")
p("C33","Partitioning assigns every element exactly one valid part",
 "Computing a partition of a mesh into n parts assigns each element exactly one part number in 0..n-1, for every method the library offers (coordinate bisection of volume meshes being for columnar meshes, whose columns it keeps whole), and uses more than one part when there are enough elements, whatever gaps the IDs have; distributing by the computed partition puts every element on the process its number names.",
 ["inputs","configurations"],"all meshes, part counts and partitioning methods",
 "graph extraction from the mesh precedes the partitioner and fails on unusual shapes",
 [R+"MESH_Get_Partitioning.c",R+"MESH_PartitionWithMetis.c",R+"MESH_PartitionWithZoltan.c",R+"MESH_Partition.c"],[("partition vector construction","MESH_PartitionWithMetis, MESH_PartitionWithZoltan, MESH_Partition")],"partition vector","returned vector and sub-meshes")
p("C34","Geometric measures agree with the coordinates",
 "Coordinates read back are the ones last set; the vector, length and squared length of an edge, the coordinates of a face's and a region's vertices in order, the cosine of the angle between two edges at their common vertex, the cosine of the dihedral angle of two faces at a given or at their common edge (minus one when they continue each other), and the condition numbers of a polygon's corners are the ones given by the current vertex coordinates, at any scale and position; edges without a common vertex and faces without a common edge have angle zero returned.",
 ["inputs","histories"],"all non-degenerate coordinate configurations and all orders of moving vertices",
 "the few geometric tests use one shape at one scale",
 [H+"MEs_Angle.c",H+"MFs_DihedralAngle.c","src/misc/MF_CondNums.c",B+"ME_Geometry.c"],[("vector arithmetic","src/misc/MSTK_VecFuncs.c")],"coordinates","returned floating-point values")
p("C35","A file read in parallel gives the distributed version of its mesh",
 "Reading a native or Exodus II file on several processes gives a distributed version of the mesh that reading it on one process gives, whether one process reads the file and hands out the parts or every process reads its own elements from the file and the parts are woven together: each process holds exactly the elements its part has and the ghost layer asked for, with the coordinates, connectivity, element blocks, ownership labels and global identifiers of a distributed mesh, for standard, polygonal and polyhedral elements, planar and curved surfaces; fields and sets of vertices, elements and sides come with what was read; elements and vertices read in pieces have their number in the file as global identifier.",
 ["inputs","configurations"],"all meshes that can be written to such files, all partitions of the elements, all numbers of processes",
 "the parallel file tests read a few fixed files with whatever partition the partitioner gives",
 ["src/io/MESH_ImportFromExodusII.c","src/io/MESH_ReadExodusII_Partial.c",R+"MSTK_Mesh_Read_Distribute.c"],[("ranges of elements, faces and nodes read from blocks","MESH_ReadExodusII_Partial")],"files, each process's mesh","each process's mesh after reading")
p("C36","A distributed mesh written to one file per process can be read back",
 "When every process exports its part of a distributed mesh to Exodus II, and the same number of processes import those files again and weave them, the result is a distributed version of the same whole mesh: every process owns the elements it owned, elements and vertices keep their global identifiers unless renumbering was asked for (then every kind is numbered 1..N over all processes), ghosts, ownership labels and lists are those of a distributed mesh, and coordinates, connectivity, element blocks, fields and sets are those that were written; whether the mesh was distributed by one process, read in pieces or built by every process on its own, in any local order.",
 ["inputs","configurations","histories"],"all distributed meshes that can be written to such files, all partitions, all local orders, all numbers of processes",
 "no test writes a distributed mesh and reads it back",
 ["src/io/MESH_ExportToExodusII.c","src/io/MESH_ImportFromNemesisI.c","src/io/MESH_ReadExodusII_Serial.c"],[("local numbering of the file, element and node maps","MESH_ExportToExodusII")],"the files of all processes","each process's mesh after reading")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))

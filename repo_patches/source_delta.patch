From 4052e311836cd198667bfae9adc14e42c70afa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 001/102] fix: give an added or unlinked entity exactly one
 owning model

AddEntity() left the entity in its former model's list (double delete on
destruction) and UnlinkEntity() left the parent pointer behind.
---
 src/iges/iges.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..d026e35 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -964,6 +964,10 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity must have a single owner
+    if( NULL != aEntity->parent && this != aEntity->parent )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -1016,6 +1020,7 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+            aEntity->parent = NULL;
             return true;
         }
 
@@ -2449,6 +2454,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // Set *packagedEntity to equal our new subassembly (Entity 308)
     //
 
+    // entities are removed from our list as ownership is transferred
+    vector<IGES_ENTITY*> elist( entities );
     list<IGES_ENTITY*> tplist;
     list<IGES_ENTITY*> sslist;
     list<IGES_ENTITY*> brlist;
@@ -2525,6 +2532,10 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
                 while( p308->DelDE( *sEnt ) && sEnt != eEnt );
 
                 newParent->DelEntity( ep );
+
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( elist[i] );
+
                 return false;
             }
 
@@ -2546,6 +2557,10 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
                 while( p308->DelDE( *sEnt ) && sEnt != eEnt );
 
                 newParent->DelEntity( ep );
+
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( elist[i] );
+
                 return false;
             }
 
@@ -2567,6 +2582,10 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
                 while( p308->DelDE( *sEnt ) && sEnt != eEnt );
 
                 newParent->DelEntity( ep );
+
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( elist[i] );
+
                 return false;
             }
 
@@ -2576,18 +2595,15 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     for( size_t i = 0; i < nEnt; ++ i )
     {
-        if( !newParent->AddEntity( entities[i] ) )
+        if( !newParent->AddEntity( elist[i] ) )
         {
             ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
 
             ep = (IGES_ENTITY*)p308;
             newParent->UnlinkEntity( ep );
 
-            for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
+            for( size_t j = 0; j < nEnt; ++j )
+                AddEntity( elist[j] );
 
             delete ep;
             return false;
-- 
2.43.0


From 8429096d66602448c627eae8dd2e9c72add50eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 002/102] fix: Export() refuses a NULL handle and the model
 itself as destination

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d026e35..b71f6d4 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2385,17 +2385,17 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
-    if( NULL == newParent )
+    if( NULL == packagedEntity )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
         return false;
     }
 
-    if( NULL == packagedEntity )
+    *packagedEntity = NULL;
+
+    if( NULL == newParent || this == newParent )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
         return false;
     }
 
-- 
2.43.0


From 91b279d05a484cf89b4479143293e625077ebb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 003/102] fix: generated part and assembly names are distinct

The name counters were never advanced and assembly names used the part counter.
---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b71f6d4..573fedd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2649,7 +2649,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2669,7 +2669,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxAssyNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From ebe8d358f9ef5c6c12b0ff4475f1e6bc2a363cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 004/102] fix: optional entities can be deleted from an entity

DelOptionalEntity() refused Type 406 and never found its entry;
delReference() looped forever when more than one optional entity was held.
---
 src/entities/iges_entity.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..02b19ab 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
@@ -2909,16 +2909,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2929,6 +2923,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
     {
         if( *sL == aEntity )
         {
+            // note: Type 402 holds no reference to this entity
+            if( eType != 402 )
+                aEntity->delReference( this );
+
             extras.erase( sL );
             return true;
         }
@@ -2936,7 +2934,7 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] entity is not in the list of optional entities\n";
     return false;
 }
 
-- 
2.43.0


From c25b80aaa6557c16d4db38645ccee41a13800801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 005/102] fix: refuse self links and direct circular links of
 boolean trees

---
 src/entities/entity180.cpp   | 14 ++++++++++++++
 src/entities/iges_entity.cpp |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..c3119ef 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -338,6 +338,20 @@ bool IGES_ENTITY_180::isOrphaned( void )
 
 bool IGES_ENTITY_180::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
 {
+    std::list<BTREE_NODE*>::iterator sNode = nodes.begin();
+    std::list<BTREE_NODE*>::iterator eNode = nodes.end();
+
+    while( sNode != eNode )
+    {
+        if( NULL != aParentEntity && aParentEntity == (*sNode)->pEnt )
+        {
+            ERRMSG << "\n + [BUG] requested a circular dependency on a node\n";
+            return false;
+        }
+
+        ++sNode;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 02b19ab..568a27a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -370,7 +370,7 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
     }
 
     // Ensure we have no direct circular references
-    if( aParentEntity == pStructure || aParentEntity == pLineFontPattern
+    if( aParentEntity == this || aParentEntity == pStructure || aParentEntity == pLineFontPattern
         || aParentEntity == pLevel || aParentEntity == pView
         || aParentEntity == pTransform || aParentEntity == pLabelAssoc
         || aParentEntity == pColor )
-- 
2.43.0


From a69171ce21335ec0eb075859692debee651f19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 006/102] fix: DelDE() and DelPTI() withdraw the parent
 reference of the removed child

The child kept a reference to the former parent, which dangles once that is destroyed.
---
 src/entities/entity144.cpp | 2 ++
 src/entities/entity308.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..40d048e 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -876,6 +876,8 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
         {
             PTI.erase( bref );
             N2 = (int)PTI.size();
+            vPTI.clear();
+            aPtr->delReference( this );
             return true;
         }
 
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..b305e7c 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -600,6 +600,8 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
         {
             DE.erase( bref );
             N = (int)DE.size();
+            m_DE.clear();
+            aPtr->delReference( this );
             return true;
         }
 
-- 
2.43.0


From 13f78595d4042979649869092cd3225225f3cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 007/102] fix: a boolean tree which drops its nodes withdraws
 its references to them

When one operand was destroyed the other operands kept a parent reference
to the tree, which dangles once the tree is destroyed.
---
 src/entities/entity180.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index c3119ef..a992877 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -313,6 +313,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,7 +322,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
     return true;
 }
-- 
2.43.0


From 2fe1f620390aee38d2040fba3669b2dea6f89b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 008/102] fix: a transformation matrix releases a destroyed
 optional entity

---
 src/entities/entity124.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..4fa6f0a 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -236,6 +236,10 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
 
     if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
     {
+        // an optional entity may still be attached
+        if( IGES_ENTITY::unlink( aChildEntity ) )
+            return true;
+
         ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
         cerr << aChildEntity->GetEntityType() << ")\n";
         return false;
-- 
2.43.0


From faf909d81df54aef23f8272c6d2d54454cfedfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 009/102] fix: IGES_ENTITY_122::SetDE and
 IGES_ENTITY_180::AddArg accept a NULL pointer without crashing

---
 src/entities/entity122.cpp | 3 +++
 src/entities/entity180.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..8fc5e47 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -403,6 +403,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         DE = NULL;
     }
 
+    if( NULL == aPtr )
+        return true;
+
     bool dup = false;
 
     if( !aPtr->addReference(this, dup) )
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index a992877..04681c1 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -597,6 +597,12 @@ bool IGES_ENTITY_180::AddOp( BTREE_OPERATOR op )
 
 bool IGES_ENTITY_180::AddArg( IGES_ENTITY* aOperand )
 {
+    if( NULL == aOperand )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed to method\n";
+        return false;
+    }
+
     int iEnt = aOperand->GetEntityType();
 
     if( !typeOK( iEnt ) )
-- 
2.43.0


From aaa182f35a3c7602f2bca4909581ec486a32a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 010/102] fix: Cull() removes entities which are orphaned by
 the removal of others

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 573fedd..a075818 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1777,6 +1777,10 @@ void IGES::Cull( bool vicious )
     entities.clear();
     entities = tmpEnts;
 
+    // the removal of an entity may orphan an entity which was already visited
+    if( nCulled > 0 )
+        Cull( vicious );
+
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
     cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
-- 
2.43.0


From 835966ac99a86abc212187267181071760880f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 011/102] fix: color queries report the linked color definition

GetColorEntity() relied on the sign of the color number, which SetColor()
never sets and which survives the destruction of the definition.
---
 src/entities/iges_entity.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 568a27a..7bdff77 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -335,6 +335,7 @@ bool IGES_ENTITY::unlink(IGES_ENTITY *aChild)
     if( aChild == pColor )
     {
         pColor = NULL;
+        colorNum = 0;
         return true;
     }
 
@@ -2326,7 +2327,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( NULL != pColor || ( colorNum & 0x80000000 ) )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2339,7 +2340,10 @@ bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 
 bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
-    *aColor = NULL;
+    *aColor = pColor;
+
+    if( NULL != pColor )
+        return true;
 
     if( 0 == (colorNum & 0x80000000) )
     {
@@ -2350,15 +2354,9 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
     }
 
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    *aColor = pColor;
-    return true;
+    ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
+    cerr << entityType << "\n";
+    return false;
 }
 
 
-- 
2.43.0


From f99c3b941b736c36e138bced70360e9d92600ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 012/102] verification hooks (LIBIGES_VERIF_HOOKS): read access
 to references, entity list and start section

---
 src/include/core/iges.h        | 6 ++++++
 src/include/core/iges_entity.h | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..75a4b77 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -96,6 +96,12 @@ private:
     int                    nPDSecLines;     //< number of lines in the Parameter Data section
 
     std::vector<IGES_ENTITY*> entities;     //< all existing IGES entities and their data
+#ifdef LIBIGES_VERIF_HOOKS
+public:
+    const std::vector<IGES_ENTITY*>& verifEntities( void ) const { return entities; }
+    const std::list<std::string>& verifStart( void ) const { return startSection; }
+private:
+#endif
 
     // initialize internal data structures
     bool init(void);
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..28226ca 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -80,6 +80,11 @@ protected:
     std::list< bool* > m_validFlags;
     /// list of referring (parent) entities
     std::list<IGES_ENTITY*> refs;
+#ifdef LIBIGES_VERIF_HOOKS
+public:
+    const std::list<IGES_ENTITY*>& verifRefs( void ) const { return refs; }
+protected:
+#endif
     /// list of extra entities (optional PD entries)
     std::vector<IGES_ENTITY*> extras;
     std::list<int> iExtras;
-- 
2.43.0


From ba6391221c269144cc32f814622cddb4c1774ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 013/102] fix: a transformation matrix refuses form numbers
 outside 0, 1 and 10..12

---
 src/entities/entity124.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 4fa6f0a..a065ee9 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -293,7 +293,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && ( form < 10 || form > 12 ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
@@ -375,7 +375,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && ( aForm < 10 || aForm > 12 ) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 73df1f7f20a8fcc7b8d66a17f975e25dd6436a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 014/102] fix: a trimmed surface without an outer boundary
 curve can be written and read back

---
 src/entities/entity144.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 40d048e..e88c709 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -217,7 +217,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         }
 
     }
-    else
+    else if( 0 != N1 )
     {
         ERRMSG << "\n + [VIOLATION] unspecified boundary entity\n";
         iPTI.clear();
@@ -407,6 +407,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
     if( aChild == PTO )
     {
         PTO = NULL;
+        N1 = 0;
         return true;
     }
 
@@ -581,7 +582,9 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    // note: iPTO is 0 if the outer boundary is the boundary of the surface
+    if( iPTO < 0 || ( iPTO != 0 && (iPTO & 1) == 0 ) || iPTO > 9999997
+        || ( iPTO == 0 && N1 != 0 ) )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From 289c2710695d4eb50927b5181596b36889fed892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 015/102] fix: write the maximum line width, not the gradation
 count, in Global field 17

---
 src/iges/iges.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a075818..7754fdb 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2233,10 +2233,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
-    if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+    double maxLW = globalData.maxLinewidth;
+
+    if( maxLW < 1e-6 )
+        maxLW = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, maxLW, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From ab01786fe81a4472fff80de14e5a5489ffb667fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 016/102] fix: a chain of transformation matrices cannot become
 circular

---
 src/entities/entity124.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index a065ee9..e998dff 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -267,6 +267,21 @@ bool IGES_ENTITY_124::isOrphaned( void )
 
 bool IGES_ENTITY_124::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
 {
+    // a parent which this transform refers to (directly or through other
+    // transforms) would result in an endless chain of transforms
+    IGES_ENTITY* tp = pTransform;
+
+    while( tp )
+    {
+        if( tp == aParentEntity )
+        {
+            ERRMSG << "\n + [BUG] requested a circular chain of transforms\n";
+            return false;
+        }
+
+        tp = ((IGES_ENTITY_124*)tp)->pTransform;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
-- 
2.43.0


From 67043505ef3d5d78aabcd54b09751f3bed908890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 017/102] fix: nested subfigures cannot contain themselves

---
 src/entities/entity308.cpp   | 45 +++++++++++++++++++++++++-----------
 src/entities/entity408.cpp   | 11 ++++++++-
 src/include/core/entity308.h |  7 ++++++
 src/include/core/entity408.h |  7 ++++++
 4 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index b305e7c..56614a9 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -279,21 +279,10 @@ bool IGES_ENTITY_308::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         return false;
     }
 
-    if( !DE.empty() )
+    if( contains( aParentEntity ) )
     {
-        std::list<IGES_ENTITY*>::iterator sDE = DE.begin();
-        std::list<IGES_ENTITY*>::iterator eDE = DE.end();
-
-        while( sDE != eDE )
-        {
-            if( aParentEntity == *sDE )
-            {
-                ERRMSG << "\n + [BUG] circular reference requested\n";
-                return false;
-            }
-
-            ++sDE;
-        }
+        ERRMSG << "\n + [BUG] circular reference requested\n";
+        return false;
     }
 
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
@@ -612,6 +601,34 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
 }
 
 
+bool IGES_ENTITY_308::contains( IGES_ENTITY* aEntity )
+{
+    std::list<IGES_ENTITY*>::iterator sDE = DE.begin();
+    std::list<IGES_ENTITY*>::iterator eDE = DE.end();
+
+    while( sDE != eDE )
+    {
+        if( aEntity == *sDE )
+            return true;
+
+        if( (*sDE)->GetEntityType() == ENT_SUBFIGURE_DEFINITION )
+        {
+            if( ((IGES_ENTITY_308*)(*sDE))->contains( aEntity ) )
+                return true;
+        }
+        else if( (*sDE)->GetEntityType() == ENT_SINGULAR_SUBFIGURE_INSTANCE )
+        {
+            if( ((IGES_ENTITY_408*)(*sDE))->contains( aEntity ) )
+                return true;
+        }
+
+        ++sDE;
+    }
+
+    return false;
+}
+
+
 int IGES_ENTITY_308::getDepthLevel( void )
 {
     if( DE.empty() )
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..25cb4eb 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -254,7 +254,7 @@ bool IGES_ENTITY_408::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         return false;
     }
 
-    if( aParentEntity == DE )
+    if( contains( aParentEntity ) )
     {
         ERRMSG << "\n + [INFO] requesting circular reference\n";
         return false;
@@ -460,6 +460,15 @@ bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 }
 
 
+bool IGES_ENTITY_408::contains( IGES_ENTITY* aEntity )
+{
+    if( !DE )
+        return false;
+
+    return aEntity == DE || DE->contains( aEntity );
+}
+
+
 int IGES_ENTITY_408::getDepthLevel( void )
 {
     // note: the specification is not clear about whether Type IGES_ENTITY_308
diff --git a/src/include/core/entity308.h b/src/include/core/entity308.h
index f282e09..749971d 100644
--- a/src/include/core/entity308.h
+++ b/src/include/core/entity308.h
@@ -89,6 +89,13 @@ public:
      */
     int getDepthLevel( void );
 
+    /**
+     * Function contains
+     * returns true if the given entity is a member of this subfigure, either
+     * directly or through nested subfigures.
+     */
+    bool contains( IGES_ENTITY* aEntity );
+
 public:
     IGES_ENTITY_308( IGES* aParent );
     virtual ~IGES_ENTITY_308();
diff --git a/src/include/core/entity408.h b/src/include/core/entity408.h
index 3a2c4d0..ffebdae 100644
--- a/src/include/core/entity408.h
+++ b/src/include/core/entity408.h
@@ -117,6 +117,13 @@ public:
      * establish correct Depth Level values as per the IGES specification.
      */
     int getDepthLevel( void );
+
+    /**
+     * Function contains
+     * returns true if the given entity is the Subfigure Definition of this
+     * instance or is contained within that definition.
+     */
+    bool contains( IGES_ENTITY* aEntity );
 };
 
 #endif  // ENTITY_408_H
-- 
2.43.0


From bdd8ae2ad344fc9a7a1bb63128b0ea01d7c34e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 018/102] fix: GetNURBSData no longer dereferences a NULL
 pointer

---
 src/entities/entity126.cpp | 4 ++--
 src/entities/entity128.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..1350f6e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -965,8 +965,8 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..419b8a6 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -889,9 +889,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From 60a82c483a1f54db68f640cabfb5d3f04015ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 019/102] fix: a refused SetNURBSData leaves the entity
 unchanged; drop the stale cached curve

---
 src/entities/entity126.cpp | 28 +++++++++++++++++-----------
 src/entities/entity128.cpp | 27 +++++++++++++++------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 1350f6e..4f400ea 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1000,11 +1000,6 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     const double* coeff, bool isRational, double v0, double v1 )
 {
-#ifdef USE_SISL
-    if( NULL != scurve )
-        freeCurve( scurve );
-#endif
-
     if( !knot || !coeff )
     {
         ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
@@ -1027,24 +1022,35 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    int nk = nCoeff + order;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[nk -1] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[nk -1] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+    nKnots = nk;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
+#ifdef USE_SISL
+    // the cached curve refers to the data which is to be replaced
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
     if( knots )
     {
         delete [] knots;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 419b8a6..7f499ee 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -976,40 +976,43 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    int nk1 = nCoeff1 + order1;
+    int nk2 = nCoeff2 + order2;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[nk1 -1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[nk1 -1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[nk2 -1] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[nk2 -1] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nk1;
+    nKnots2 = nk2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 1f67c42b15b224c680ca4925302940e3e2c34c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 020/102] fix: comments are written as 64-column Parameter
 lines with their DE back pointer

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 7bdff77..d10a9fb 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2799,11 +2799,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            // each line carries the DE sequence number of this entity
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From be04d22e96ad98198c952f8007fdb4b0eecab8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 021/102] fix: the receiving system ID defaults to the sending
 system ID

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7754fdb..81965b6 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1285,7 +1285,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From b4f7690f0d6f77f36db55d29d6cdbd58d4aa193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 022/102] fix: a record delimiter other than the default is
 recognised when the parameter delimiter is the default

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 81965b6..399e84a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1099,7 +1099,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1107,12 +1107,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 537d4c925c0acf5d9b2b44bbbec9f80b3aa1f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 023/102] fix: an absent modification date is accepted

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 399e84a..b327d6e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1502,7 +1502,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From c2790d7fe4f858af3b761700761ca67946e8410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 024/102] fix: checkDate no longer indexes the month table out
 of range, checks the seconds

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b327d6e..f20657b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( imon < 1 || imon > 12 || iday < 1 || iday > mdays[imon -1] )
         ok = false;
 
     errno = 0;
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 274d77f5b751e6e79feabd7cf2f6680622772503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 025/102] fix: unit and scale of a file are normalised whether
 or not it has an application note

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f20657b..7115121 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1514,10 +1514,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From abb9d38f0bb3abf8ec8c85981a9a414a5884f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 026/102] fix: Write reports a failure to flush or close the
 file

---
 src/iges/iges.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7115121..583993a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -661,7 +661,7 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
             ERRMSG << "\n + [INFO] could not format entity for output\n";
 
             for( nEnt = 0; nEnt < iEnt; ++nEnt )
-                entities[iEnt]->unformat();
+                entities[nEnt]->unformat();
 
             return false;
         }
@@ -816,7 +816,16 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         return false;
     }
 
+    // the data are only on disk once the file was flushed and closed
     file.close();
+
+    if( file.fail() )
+    {
+        ERRMSG << "\n + [INFO] could not complete the file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 27f25298f3e266290abea9df60a7bcaba047e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 027/102] fix: GetUnitName names the current unit

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 583993a..9be56bb 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2691,5 +2691,5 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From c26e9f83045129feabb23ef2a5080c18806bd24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 028/102] fix: the name of an externally defined unit is
 written

---
 src/iges/iges.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9be56bb..89494f0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2217,7 +2217,13 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    // note: a unit which is defined externally must retain its own name
+    tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( globalData.unitsFlag == UNIT_EXTERN && !globalData.unitsName.empty() )
+        tstr = globalData.unitsName;
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 793d3978aa5df8b9d895910751e815ecb1ea18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 029/102] fix: GetHeaders returns the number of lines and
 current pointers

---
 src/iges/iges.cpp       | 20 +++++++++-----------
 src/include/core/iges.h |  2 +-
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 89494f0..4d8380a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1877,7 +1877,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
@@ -1886,17 +1886,15 @@ bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
         return false;
     }
 
-    if( vStartSection.size() != startSection.size() )
-    {
-        vStartSection.clear();
-        std::list<std::string>::iterator sL = startSection.begin();
-        std::list<std::string>::iterator eL = startSection.end();
+    // note: the strings may have been changed by Clear(), Read() or Write()
+    vStartSection.clear();
+    std::list<std::string>::iterator sL = startSection.begin();
+    std::list<std::string>::iterator eL = startSection.end();
 
-        while( sL != eL )
-        {
-            vStartSection.push_back( sL->c_str() );
-            ++sL;
-        }
+    while( sL != eL )
+    {
+        vStartSection.push_back( sL->c_str() );
+        ++sL;
     }
 
     aListSize = vStartSection.size();
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index 75a4b77..cc86757 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -305,7 +305,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From a992032ee3d1ea3b914bfc6d8a1a392b7363386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 030/102] fix: AddToHeader keeps lines of exactly 72 characters

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4d8380a..499e9c9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1922,12 +1922,12 @@ bool IGES::AddToHeader( const char*& comments )
     size_t slen = tStr.length();
     size_t slen1;
 
-    if( slen < 72 )
+    if( slen <= 72 )
     {
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 8bd530267ff38d4333d557a60ac56a6f92849f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 031/102] fix: numbers beyond the range of an int are rejected

---
 src/iges/iges_io.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..942d7d6 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <limits>
 
 #include <error_macros.h>
 #include <core/iges_io.h>
@@ -251,7 +252,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
     if( errno || cp == rp )
     {
@@ -278,7 +279,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (int)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
@@ -288,7 +289,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 
     param = data.substr(idx, i);
 
-    idx += i;
+    idx += (int)i;
 
     if( data[idx] == rd )
     {
@@ -396,9 +397,9 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    if( errno || cp == rp || i > std::numeric_limits<int>::max() || i < std::numeric_limits<int>::min() )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -412,7 +413,7 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         cerr << "Data: " << data.substr(tidx) << "\n";
     }
 
-    param = i;
+    param = (int)i;
     return true;
 }
 
-- 
2.43.0


From 24319db664e048d7a843ad49cf5d5fec6071d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 032/102] fix: Directory Entry records which are not numbered
 consecutively are rejected

---
 src/entities/iges_entity.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index d10a9fb..a618526 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1089,6 +1089,15 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
+    // note: the DE records must be numbered consecutively, otherwise a
+    // pointer to a DE does not identify the entity at that position
+    if( aRecord->index != aSequenceVar + 1 )
+    {
+        ERRMSG << "\n + [CORRUPT FILE]: expecting sequence number " << (aSequenceVar + 1);
+        cerr << ", got " << aRecord->index << "\n";
+        return false;
+    }
+
     if( 0 == (aRecord->index & 1) )
     {
         ERRMSG << "\n + [BUG]: expecting an odd sequence number in DE Record 1, got " << aRecord->index << "\n";
-- 
2.43.0


From 24dbc9e419d0a7d78790f1a91d7a3181f150efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 033/102] fix: Parameter Data records which are not numbered
 consecutively are rejected

---
 src/entities/iges_entity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index a618526..db00c6a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1465,6 +1465,13 @@ bool IGES_ENTITY::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    if( parameterData != aSequenceVar + 1 )
+    {
+        ERRMSG << "\n + [BAD FILE] Parameter Data Index (" << parameterData;
+        cerr << ") does not continue the section (expecting " << (aSequenceVar + 1) << ")\n";
+        return false;
+    }
+
     IGES_RECORD rec;
     char pd = parent->globalData.pdelim;
     char rd = parent->globalData.rdelim;
-- 
2.43.0


From 05985616308d14ee42b473a40e6214d2932178e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 034/102] fix: a Read which fails on a bad pointer leaves the
 model empty as every other failed Read does

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 499e9c9..0531883 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -609,6 +609,8 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From 4b3056ecee9e49f7e076cb2a8df4235c0cee4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 035/102] fix: even and self-referential pointers of a
 Directory Entry are rejected without a crash

---
 src/entities/iges_entity.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index db00c6a..3ef0d5f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -486,6 +486,16 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
     int tEnt;
     bool dup = false;
 
+    // DE sequence numbers of entities are always odd
+    if( ( view && !(view & 1) ) || ( transform && !(transform & 1) )
+        || ( labelAssoc && !(labelAssoc & 1) ) || ( level < 0 && !((-level) & 1) )
+        || ( lineFontPattern < 0 && !((-lineFontPattern) & 1) )
+        || ( colorNum < 0 && !((-colorNum) & 1) ) )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] even pointer in Directory Entry (DE" << sequenceNumber << ")\n";
+        return false;
+    }
+
     if( structure > 0 )
     {
         idx = structure >> 1;
@@ -499,7 +509,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pStructure = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by structure (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pStructure->addReference(this, dup) )
@@ -560,7 +570,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLineFontPattern = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Line Font Pattern (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLineFontPattern->addReference(this, dup) )
@@ -632,7 +642,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLevel = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Level (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLevel->addReference(this, dup) )
@@ -704,7 +714,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pView = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by View (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pView->addReference(this, dup) )
@@ -784,7 +794,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pTransform = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pTransform->addReference(this, dup) )
@@ -855,7 +865,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLabelAssoc = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLabelAssoc->addReference(this, dup) )
@@ -927,7 +937,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pColor = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Color Number (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pColor->addReference(this, dup) )
-- 
2.43.0


From 0eb5654f978de890a7775950f3ac19f0837bdc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 036/102] fix: NURBS index sums which the parameter text cannot
 hold are rejected

---
 src/entities/entity126.cpp | 5 +++--
 src/entities/entity128.cpp | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 4f400ea..32b7fa9 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -466,7 +466,8 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( K < 1 )
+    // each of the K + 1 poles and 2 + K + M knots takes at least 1 character
+    if( K < 1 || K > (int)pdout.length() )
     {
         ERRMSG << "\n + [INFO] invalid K value (" << K << ")\n";
         pdout.clear();
@@ -480,7 +481,7 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( M < 1 )
+    if( M < 1 || M > (int)pdout.length() )
     {
         ERRMSG << "\n + [INFO] invalid M value (" << M << ")\n";
         pdout.clear();
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 7f499ee..f908b5c 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -471,7 +471,8 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( K1 < 1 )
+    // each of the (K1 + 1)*(K2 + 1) poles and each knot takes at least 1 character
+    if( K1 < 1 || K1 > (int)pdout.length() )
     {
         ERRMSG << "\n + [INFO] invalid K1 value (" << K1 << ")\n";
         pdout.clear();
@@ -485,7 +486,7 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( K2 < 1 )
+    if( K2 < 1 || K2 > (int)pdout.length() / (K1 + 1) )
     {
         ERRMSG << "\n + [INFO] invalid K2 value (" << K2 << ")\n";
         pdout.clear();
@@ -499,7 +500,7 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( M1 < 1 )
+    if( M1 < 1 || M1 > (int)pdout.length() )
     {
         ERRMSG << "\n + [INFO] invalid M1 value (" << M1 << ")\n";
         pdout.clear();
@@ -513,7 +514,7 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( M2 < 1 )
+    if( M2 < 1 || M2 > (int)pdout.length() )
     {
         ERRMSG << "\n + [INFO] invalid M2 value (" << M2 << ")\n";
         pdout.clear();
-- 
2.43.0


From 95fbcb2bbf6f2f5d919fc88e3f9ef2e4846cc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 037/102] fix: the name of a color definition may span lines
 and precedes its optional pointers

---
 src/entities/entity314.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..e6065e1 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -188,17 +188,12 @@ bool IGES_ENTITY_314::format( int &index )
 
     char idelim;
 
-    if( cname.empty() )
-    {
-        if( extras.empty() )
-            idelim = rd;
-        else
-            idelim = pd;
-    }
+    // note: the name precedes the optional parameters so when there are
+    // such parameters an empty name must be written as well
+    if( cname.empty() && extras.empty() )
+        idelim = rd;
     else
-    {
         idelim = pd;
-    }
 
     if( !FormatPDREal( tStr, blue, idelim, 0.1 ) )
     {
@@ -209,17 +204,19 @@ bool IGES_ENTITY_314::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !cname.empty() )
+    if( !cname.empty() || !extras.empty() )
     {
         if( extras.empty() )
             idelim = rd;
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format color name\n";
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
-- 
2.43.0


From 28038c4ba9486e88576b1a03cb1b59d46971e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 038/102] fix: a file may refer to a composite curve which
 comes later

---
 src/iges/iges.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 0531883..3b86ed5 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -604,14 +604,28 @@ bool IGES::Read( const char* aFileName )
     size_t nEnt = entities.size();
     size_t iEnt;
 
-    for( iEnt = 0; iEnt < nEnt; ++iEnt )
+    // note: some entities inspect the geometry of the curves they refer to, so
+    // transforms are associated first, then composite curves, then all others;
+    // pointers may refer to entities which come later in the file
+    for( int pass = 0; pass < 3; ++pass )
     {
-        if( !entities[iEnt]->associate(&entities) )
+        for( iEnt = 0; iEnt < nEnt; ++iEnt )
         {
-            ERRMSG << "\n + [INFO] could not establish file associations\n";
-            file.close();
-            Clear();
-            return false;
+            int eType = entities[iEnt]->GetEntityType();
+            int ePass = 2;
+
+            if( ENT_TRANSFORMATION_MATRIX == eType )
+                ePass = 0;
+            else if( ENT_COMPOSITE_CURVE == eType )
+                ePass = 1;
+
+            if( ePass == pass && !entities[iEnt]->associate(&entities) )
+            {
+                ERRMSG << "\n + [INFO] could not establish file associations\n";
+                file.close();
+                Clear();
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From 387e9f79f6929427886a35622ecb8e7fbfd6d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 039/102] fix: the operands of a boolean tree are odd Directory
 Entry numbers

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 04681c1..902adde 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -459,7 +459,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From aceff11220055fdfd47975ddb90ad070aa267226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 040/102] fix: a file may place the members of a composite
 curve in any order

---
 src/iges/iges.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 3b86ed5..7361fcd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -605,19 +605,22 @@ bool IGES::Read( const char* aFileName )
     size_t iEnt;
 
     // note: some entities inspect the geometry of the curves they refer to, so
-    // transforms are associated first, then composite curves, then all others;
-    // pointers may refer to entities which come later in the file
-    for( int pass = 0; pass < 3; ++pass )
+    // transforms are associated first, then simple curves, then composite curves,
+    // then all others; pointers may refer to entities which come later in the file
+    for( int pass = 0; pass < 4; ++pass )
     {
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
         {
             int eType = entities[iEnt]->GetEntityType();
-            int ePass = 2;
+            int ePass = 3;
 
             if( ENT_TRANSFORMATION_MATRIX == eType )
                 ePass = 0;
-            else if( ENT_COMPOSITE_CURVE == eType )
+            else if( ENT_CIRCULAR_ARC == eType || ENT_CONIC_ARC == eType
+                || ENT_LINE == eType || ENT_NURBS_CURVE == eType )
                 ePass = 1;
+            else if( ENT_COMPOSITE_CURVE == eType )
+                ePass = 2;
 
             if( ePass == pass && !entities[iEnt]->associate(&entities) )
             {
-- 
2.43.0


From e3ded29f924798a4b2ebb6659baf069a61202c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 041/102] fix: a blank numeric field takes its default

---
 src/iges/iges_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 942d7d6..1ed4cba 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -380,7 +380,8 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         return false;
     }
 
-    if( tmp.empty() )
+    // a blank field is a defaulted field
+    if( string::npos == tmp.find_first_not_of( ' ' ) )
     {
         if( idefault )
         {
@@ -429,7 +430,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
         return false;
     }
 
-    if( tmp.empty() )
+    // a blank field is a defaulted field
+    if( string::npos == tmp.find_first_not_of( ' ' ) )
     {
         if( ddefault )
         {
-- 
2.43.0


From a87583cc2dcaba3bd44a198f532eac2271549a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 042/102] fix: an entity refused as the target of a Directory
 Entry pointer keeps no reference

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 3ef0d5f..578b33d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -610,6 +610,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference(this);
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -682,6 +683,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference(this);
                     pLevel = NULL;
                     ok = false;
                 }
@@ -755,6 +757,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference(this);
                     pView = NULL;
                     ok = false;
                 }
@@ -833,6 +836,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference(this);
                     pTransform = NULL;
                     ok = false;
                 }
@@ -905,6 +909,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference(this);
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -976,6 +981,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference(this);
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From c76a639d7c7df98e60550675ab02d1d6f7d46540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 043/102] fix: a parameter pointer must be accepted before it
 is kept

---
 src/entities/entity102.cpp |  3 ++-
 src/entities/entity120.cpp |  6 ++++--
 src/entities/entity142.cpp |  6 +++---
 src/entities/entity144.cpp |  6 +++---
 src/entities/entity164.cpp | 20 +++++++++++---------
 src/entities/entity180.cpp |  5 ++---
 6 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..5bff0b8 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -104,7 +104,7 @@ bool IGES_ENTITY_102::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = *bcur >> 1;
 
-        if( iEnt < 0 || iEnt >= sEnt )
+        if( (*bcur & 1) == 0 || iEnt < 0 || iEnt >= sEnt )
         {
             ERRMSG << "\n + [CORRUPT FILE] referenced curve entity (";
             cerr << *bcur << ") does not exist\n";
@@ -161,6 +161,7 @@ bool IGES_ENTITY_102::associate(std::vector<IGES_ENTITY *> *entities)
         else
         {
             ERRMSG << "\n + [BUG] duplicate curve entry added to composite curve\n";
+            ok = false;
         }
 
         ++bcur;
diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..4ceed3a 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -75,7 +75,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iL >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iL & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid entity (DE:" << iL << ")\n";
             return false;
@@ -102,6 +102,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             L = NULL;
             ERRMSG << "\n + [INFO] could not associate line entity with DE " << iL << "\n";
+            return false;
         }
 
         if( dup )
@@ -116,7 +117,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iC >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iC & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid entity (DE:" << iC << ")\n";
             return false;
@@ -134,6 +135,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             C = NULL;
             ERRMSG << "\n + [INFO] could not associate curve (generatrix) with DE " << iC << "\n";
+            return false;
         }
 
         if( dup )
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 83c99f8..5a3463b 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -83,7 +83,7 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iSPTR >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iSPTR & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid surface entity (DE:" << iSPTR << ")\n";
             return false;
@@ -116,7 +116,7 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iBPTR >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iBPTR & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid boundary entity (DE:" << iBPTR << ")\n";
             return false;
@@ -148,7 +148,7 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iCPTR >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iCPTR & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid bounding curve entity (DE:" << iCPTR << ")\n";
             return false;
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index e88c709..d070e9b 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -140,7 +140,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iPTS >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iPTS & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid surface entity (DE:" << iPTS << ")\n";
             iPTI.clear();
@@ -153,6 +153,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [INFO] invalid entity type (" << PTS->GetEntityType() << ") for PTS\n";
             PTS = NULL;
+            iPTI.clear();
             return false;
         }
 
@@ -184,7 +185,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iPTO >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( (iPTO & 1) == 0 || iEnt < 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid outline entity (DE:" << iPTO << ")\n";
             iPTI.clear();
@@ -268,7 +269,6 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-            PTS = NULL;
             iPTI.clear();
             return false;
         }
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..f9295f8 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -79,7 +79,7 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
         pStructure = NULL;
     }
 
-    if( iPtr < 1 )
+    if( iPtr < 1 || (iPtr & 1) == 0 )
     {
         ERRMSG << "\n + [INFO] invalid pointer to closed curve\n";
         return false;
@@ -97,24 +97,26 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
 
     bool dup = false;
 
-    if( !(*entities)[iEnt]->addReference(this, dup) )
+    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
+
+    if( NULL == PTR )
     {
         ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
+        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
         return false;
     }
 
-    if( dup )
+    if( !PTR->addReference(this, dup) )
     {
-        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+        PTR = NULL;
+        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
         return false;
     }
 
-    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
-
-    if( NULL == PTR )
+    if( dup )
     {
-        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
-        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
+        PTR = NULL;
+        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
         return false;
     }
 
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 902adde..20e050e 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -144,7 +144,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
         {
             iEnt = (*sn)->val >> 1;
 
-            if( iEnt >= 0 && iEnt < sEnt )
+            if( ((*sn)->val & 1) && iEnt >= 0 && iEnt < sEnt )
             {
                 // check that the entity type can be accepted in this list
                 tEnt = (*entities)[iEnt]->GetEntityType();
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
-- 
2.43.0


From 7f581dde5cb1407c585468eef4f3086a4e39525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 044/102] fix: Write without the overwrite flag keeps a file it
 cannot read

---
 src/iges/iges.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7361fcd..9540e20 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -708,6 +708,14 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     }
     else
     {
+        // the file may exist although it cannot be read
+        if( !fOverwrite && MCAD_FILEPATH( aFileName ).Exists() )
+        {
+            ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
+            cerr << " + filename: '" << aFileName << "'\n";
+            return false;
+        }
+
         file.open( aFileName, ios::out | ios::binary );
     }
 
-- 
2.43.0


From 10e78919a5325fe47b938fc76ba01dbfbd92ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 045/102] fix: a resolution finer than 1e-8 is not written as
 zero

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 1ed4cba..de84069 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -521,7 +521,7 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 3a15542bb3249f4c3f3356c3144b664805130028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 046/102] fix: scale the minimum resolution by the ratio of
 model scales

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9540e20..16301e7 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1885,7 +1885,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From d7d9f47e246e838cfa56f56fc6027142fa13307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 047/102] fix: rescale a conic arc so that its points remain on
 it

---
 src/entities/entity104.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..e4b6e69 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,12 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // the equation A*X^2 + B*X*Y + C*Y^2 + D*X + E*Y + F = 0
+    // holds in the new coordinates when the linear terms are
+    // scaled once and the constant term twice
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From fac934a66a4eb62b2904acd907b296d7e543deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 048/102] fix: leave the X and Y of curves in the parameter
 space of a surface unscaled

---
 src/entities/entity100.cpp    |  5 ++++
 src/entities/entity104.cpp    |  7 ++++-
 src/entities/entity110.cpp    |  9 +++++--
 src/entities/entity126.cpp    | 49 +++--------------------------------
 src/entities/iges_curve.cpp   | 29 +++++++++++++++++++++
 src/include/core/iges_curve.h |  5 ++++
 6 files changed, 55 insertions(+), 49 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..e207d49 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -403,6 +403,11 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 bool IGES_ENTITY_100::rescale( double sf )
 {
     zOffset *= sf;
+
+    // X and Y are surface parameters and not lengths
+    if( isParameterCurve() )
+        return true;
+
     xCenter *= sf;
     yCenter *= sf;
     xStart *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index e4b6e69..5fcf6f3 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,13 +356,18 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    ZT *= sf;
+
+    // X and Y are surface parameters and not lengths
+    if( isParameterCurve() )
+        return true;
+
     // the equation A*X^2 + B*X*Y + C*Y^2 + D*X + E*Y + F = 0
     // holds in the new coordinates when the linear terms are
     // scaled once and the constant term twice
     D *= sf;
     E *= sf;
     F *= sf * sf;
-    ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
     X2 *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..1cdc9ed 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -145,12 +145,17 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    Z1 *= sf;
+    Z2 *= sf;
+
+    // X and Y are surface parameters and not lengths
+    if( isParameterCurve() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
-    Z1 *= sf;
     X2 *= sf;
     Y2 *= sf;
-    Z2 *= sf;
 
     return true;
 }
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 32b7fa9..9a1bc92 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -308,52 +308,9 @@ bool IGES_ENTITY_126::format( int &index )
 
 bool IGES_ENTITY_126::rescale( double sf )
 {
-    // Before scaling we must determine if this curve is a member of the BPTR
-    // of a Curve on a Parametric Surface (BPTR to Entity 144). We must traverse
-    // the ancestors of this NURBS curve and decide whether or not it
-    // makes sense to scale the control points. If a Curve on Surface is scaled,
-    // only the Z values should be scaled
-
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
-
-    bool scaleXY = true;
-
-    if( cps )
-    {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
-    }
+    // only the Z values of a curve in the parameter space
+    // of a surface may be scaled
+    bool scaleXY = !isParameterCurve();
 
     if( NULL == coeffs )
         return true;
diff --git a/src/entities/iges_curve.cpp b/src/entities/iges_curve.cpp
index 77450a0..36c2803 100644
--- a/src/entities/iges_curve.cpp
+++ b/src/entities/iges_curve.cpp
@@ -44,3 +44,32 @@ IGES_CURVE::~IGES_CURVE()
 {
     return;
 }
+
+
+bool IGES_CURVE::isParameterCurve( void )
+{
+    std::list<IGES_ENTITY*>::iterator sR = refs.begin();
+    std::list<IGES_ENTITY*>::iterator eR = refs.end();
+
+    while( sR != eR )
+    {
+        int eType = (*sR)->GetEntityType();
+
+        if( eType == ENT_CURVE_ON_PARAMETRIC_SURFACE )
+        {
+            IGES_ENTITY* ep = NULL;
+
+            if( ((IGES_ENTITY_142*)(*sR))->GetBPTR( &ep ) && ep == this )
+                return true;
+        }
+        else if( eType == ENT_COMPOSITE_CURVE )
+        {
+            if( ((IGES_ENTITY_102*)(*sR))->isParameterCurve() )
+                return true;
+        }
+
+        ++sR;
+    }
+
+    return false;
+}
diff --git a/src/include/core/iges_curve.h b/src/include/core/iges_curve.h
index f4dc827..7870d52 100644
--- a/src/include/core/iges_curve.h
+++ b/src/include/core/iges_curve.h
@@ -65,6 +65,11 @@ protected:
     virtual bool format( int &index ) = 0;
     virtual bool rescale( double sf ) = 0;
 
+    // returns true if this curve lies in the parameter space of a
+    // surface: it is the BPTR of a Curve on a Parametric Surface
+    // (Entity 142) or a member of a Composite Curve which is
+    bool isParameterCurve( void );
+
 public:
     // public functions for libIGES only
     virtual bool associate(std::vector<IGES_ENTITY *> *entities) = 0;
-- 
2.43.0


From 236abe91e46cc852879be164bb4c28b1c7159f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 049/102] fix: apply the resolution of a file to data in the
 file's own units

---
 src/iges/iges.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 16301e7..12dca79 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -634,6 +634,9 @@ bool IGES::Read( const char* aFileName )
 
     if( globalData.convert )
     {
+        // up to this point the resolution applies to data in the file's units
+        globalData.minResolution *= globalData.cf;
+
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
     }
@@ -1566,7 +1569,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // apply a scale if the model scale is not 1.0
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
-        globalData.minResolution /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
         globalData.convert = true;
@@ -1574,7 +1576,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
     if( globalData.unitsFlag != UNIT_MILLIMETER )
     {
-        globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.convert = true;
-- 
2.43.0


From 7a8803c312065b3dcb3f2501cbabf78603505a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 050/102] fix: compare the radii of an arc and not their
 squares with the resolution

---
 src/entities/entity100.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index e207d49..97d9e03 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -366,8 +366,8 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     p1 = p1 - p0;
     p2 = p2 - p0;
 
-    double d1 = p1.x*p1.x + p1.y*p1.y;
-    double d2 = p2.x*p2.x + p2.y*p2.y;
+    double d1 = sqrt( p1.x*p1.x + p1.y*p1.y );
+    double d2 = sqrt( p2.x*p2.x + p2.y*p2.y );
     d1 = d2 - d1;
 
     if( abs( d1 ) > uir )
-- 
2.43.0


From cbbf1b0b708ad8af0e8e37d81588ddd477de02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 051/102] fix: keep a small minimum resolution when writing

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 12dca79..480ef1f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2055,7 +2055,7 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
-    if( globalData.minResolution < 1e-12 )
+    if( globalData.minResolution <= 0.0 )
         globalData.minResolution = 0.001;
 
     // Item 1: (HStr) Parameter Delimeter
-- 
2.43.0


From 3056d44059ae52fbfb9b30d763335ea8ac3248d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 052/102] fix: write the control points of a NURBS surface to
 the resolution of the model

---
 src/entities/entity128.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index f908b5c..6b29163 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -119,6 +119,11 @@ bool IGES_ENTITY_128::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = 1e-8;  // any REAL parameters are NURBS data, maintain high precision
 
+    // control points must not be less precise than the model's other data
+    if( parent->globalData.minResolution > 0.0 && parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
+
     if( K1 < 1 )
     {
         ERRMSG << "\n + [INFO] invalid value for K1\n";
-- 
2.43.0


From 85f63733391c5cbd70cbc46d018aedfeab61d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 053/102] fix: write a conic arc to the resolution of the model

---
 src/entities/entity104.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 5fcf6f3..a13e320 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -172,12 +172,21 @@ bool IGES_ENTITY_104::format( int &index )
 
     double* dp[11] = { &A, &B, &C, &D, &E, &F, &ZT, &X1, &Y1, &X2, &Y2 };
 
+    // the precision of the points, and of the coefficients, of
+    // which F is proportional to the square of a length
+    double uir = 1e-10;
+
+    if( parent->globalData.minResolution > 0.0 && parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
+    double cuir = uir < 1e-10 ? uir * uir : uir;
+
     for( int i = 0; i < 10; ++i )
     {
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
         // coefficients
-        if( !FormatPDREal( tStr, *dp[i], pd, 1e-10 ) )
+        if( !FormatPDREal( tStr, *dp[i], pd, i < 6 ? cuir : uir ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
@@ -197,7 +206,7 @@ bool IGES_ENTITY_104::format( int &index )
     else
         idelim = pd;
 
-    if( !FormatPDREal( tStr, *dp[10], idelim, 1e-10 ) )
+    if( !FormatPDREal( tStr, *dp[10], idelim, uir ) )
     {
         ERRMSG << "\n + [INFO] could not format datum 10\n";
         pdout.clear();
-- 
2.43.0


From 08b391c311cfc1adc281d1cb494784b231d744bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 054/102] fix: accept an arc in parameter space whose radius is
 below the resolution

---
 src/entities/entity100.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 97d9e03..d88760a 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -356,7 +356,9 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     // acceptance of files
     double uir = 2.0 * parent->globalData.minResolution;
 
-    if( PointMatches( p0, p1, uir ) )
+    // note: the arc may be in the parameter space of a surface where
+    // the resolution, which is a length, has no meaning
+    if( p0.x == p1.x && p0.y == p1.y )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has a radius of 0\n";
-- 
2.43.0


From cf2a9f0cc4139b47a6663c4ef6abf97f4fd90c4c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 055/102] fix: calls through an invalid property handle crash

---
 src/dllapi/dll_entity406.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..70b8f61 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -96,12 +96,18 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
     const char *result = NULL;
+
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( ep->GetEntityForm() == 15 )
     {
         std::string *sp = (std::string *)ep->GetData();
-        result = sp->c_str();
+
+        if( NULL != sp )
+            result = sp->c_str();
     }
 
     return result;
@@ -112,6 +118,9 @@ bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
     bool result = false;
 
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( (ep->GetEntityForm() == 15) && (aName != NULL) )
-- 
2.43.0


From 180129acca2d1d890a67a6b390420d74ebef9aa4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 056/102] fix: DLL_IGES::NewIGESEntity dereferences NULL

---
 src/dllapi/dll_iges.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..f6f13cc 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -364,7 +364,10 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+        return false;
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From e9874ba41caed9d6bd3630594374d06b95e4a6ad Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 057/102] fix: DLL_IGES::NewAPIEntity creates two entities

---
 src/dllapi/dll_iges.cpp | 52 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f6f13cc..8140a46 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From 955cd4d58815609ac7d1e32fa33b4d9bfb910146 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 058/102] fix: DelEntity of a handle leaves a dangling pointer
 in the model

---
 src/dllapi/dll_iges_entity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..b2053b1 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+
+        IGES* ip = m_entity->GetParentIGES();
+
+        // a model must not keep a pointer to a deleted entity
+        if( NULL == ip || !ip->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From 050828fccd10fb2633aff0976c599a84707a3e6e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 059/102] fix: curve lists of the PCB handle are not filled in

---
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..61becd3 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -281,7 +281,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
-- 
2.43.0


From ea0ec43d44f60dcf4265a90ceacc31972ed3d70b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 060/102] fix: wrong validity tests in the PCB handle

---
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 61becd3..b9004b1 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From 0c400773eaf988735f3e2ececdd546fb4a732f7d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 061/102] fix: the extrusion of a tabulated cylinder cannot be
 set through its handle

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From a10199fcef4e0be66d81807390b47056298416aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 062/102] fix: GetDEList of an empty Subfigure Definition
 handle is undefined

---
 src/dllapi/dll_entity308.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3fe6132 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -113,26 +113,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    std::list< IGES_ENTITY* >* pDE = &((IGES_ENTITY_308*)m_entity)->DE;
-    std::vector< IGES_ENTITY* >* pvDE = &((IGES_ENTITY_308*)m_entity)->m_DE;
-
-    if( pDE->size() != pvDE->size() )
-    {
-        pvDE->clear();
-
-        std::list< IGES_ENTITY* >::iterator sDL = pDE->begin();
-        std::list< IGES_ENTITY* >::iterator eDL = pDE->end();
-
-        while( sDL != eDL )
-        {
-            pvDE->push_back( *sDL );
-            ++sDL;
-        }
-    }
-
-    aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
-    return true;
+    return ((IGES_ENTITY_308*)m_entity)->GetDEList( aDESize, aDEList );
 }
 
 
-- 
2.43.0


From f2b76f9e33c337f9fc08596c4ef8100ffad18898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 063/102] fix: stale lists of cutouts and of subfigure members

---
 src/entities/entity144.cpp | 15 ++-------------
 src/entities/entity308.cpp | 15 ++-------------
 2 files changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index d070e9b..c7f7158 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -781,19 +781,8 @@ bool IGES_ENTITY_144::GetPTIList( size_t& aListSize, IGES_ENTITY_142**& aPTIList
         return false;
     }
 
-    if( PTI.size() != vPTI.size() )
-    {
-        vPTI.clear();
-        std::list<IGES_ENTITY_142*>::iterator sL = PTI.begin();
-        std::list<IGES_ENTITY_142*>::iterator eL = PTI.end();
-
-        while( sL != eL )
-        {
-            vPTI.push_back( *sL );
-            ++sL;
-        }
-    }
-
+    // note: the list may have changed and still be of the same size
+    vPTI.assign( PTI.begin(), PTI.end() );
     aListSize = vPTI.size();
     aPTIList = &vPTI[0];
     return true;
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 56614a9..4bdf4d2 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -470,19 +470,8 @@ bool IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    if( DE.size() != m_DE.size() )
-    {
-        m_DE.clear();
-        std::list< IGES_ENTITY* >::iterator sL = DE.begin();
-        std::list< IGES_ENTITY* >::iterator eL = DE.end();
-
-        while( sL != eL )
-        {
-            m_DE.push_back( *sL );
-            ++sL;
-        }
-    }
-
+    // note: the list may have changed and still be of the same size
+    m_DE.assign( DE.begin(), DE.end() );
     aDESize = m_DE.size();
     aDEList = &m_DE[0];
     return true;
-- 
2.43.0


From 168db5ba1c210f86b051d1f16033038545d95d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 064/102] fix: stale list of comments

---
 src/entities/iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 578b33d..84af904 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3061,6 +3061,7 @@ bool IGES_ENTITY::DelComment( int index )
     }
 
     comments.erase( bs );
+    vcomments.clear();
     return true;
 }
 
@@ -3068,6 +3069,7 @@ bool IGES_ENTITY::DelComment( int index )
 bool IGES_ENTITY::ClearComments( void )
 {
     comments.clear();
+    vcomments.clear();
     return true;
 }
 
-- 
2.43.0


From 208acd894db8235a017859455cd048d7353b8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 065/102] fix: wrong line weights after Export

---
 src/iges/iges.cpp | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 480ef1f..20e15d3 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2463,27 +2463,6 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     size_t nEnt = entities.size();
 
-    // determine crude linewidth adjustment; the new linewidths are guaranteed to
-    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
-    // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
-    int llw;
-
-    for( size_t i = 0; i < nEnt; ++ i )
-    {
-        llw = entities[i]->lineWeightNum;
-
-        if( llw > 0 )
-        {
-            llw = (int)(double(llw) * lws);
-
-            if( llw == 0 )
-                llw = 1;
-        }
-
-        entities[i]->lineWeightNum = llw;
-    }
-
     // iterate through the list of entities and store lists of
     // + (a) top level Entity 144 (Trimmed Parametric Surfaces)
     // + (b) top level Entity 408 (Singular Subfigure Instance)
@@ -2537,6 +2516,28 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     if( tplist.empty() && sslist.empty() && brlist.empty() )
         return true;
 
+    // determine crude linewidth adjustment; the new linewidths are guaranteed to
+    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
+    // for the new parent IGES and the IGES being merged.
+    double lws = double( maxLWG < 1 ? 1 : maxLWG )
+                 / double( globalData.maxLinewidthGrad < 1 ? 1 : globalData.maxLinewidthGrad );
+    int llw;
+
+    for( size_t i = 0; i < nEnt; ++ i )
+    {
+        llw = entities[i]->lineWeightNum;
+
+        if( llw > 0 )
+        {
+            llw = (int)(double(llw) * lws);
+
+            if( llw == 0 )
+                llw = 1;
+        }
+
+        entities[i]->lineWeightNum = llw;
+    }
+
     IGES_ENTITY* ep;
     IGES_ENTITY_308* p308;
 
-- 
2.43.0


From 171449da5e768637a2cdb16597574f83d8964670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 066/102] fix: arc whose radius is large compared to the
 resolution is refused

---
 src/entities/entity100.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d88760a..5bf144e 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -370,6 +370,14 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     double d1 = sqrt( p1.x*p1.x + p1.y*p1.y );
     double d2 = sqrt( p2.x*p2.x + p2.y*p2.y );
+
+    // note: coordinates are written with a limited number of digits; the
+    // resolution may be smaller than the error due to rounding
+    double mc = fabs( p0.x ) + fabs( p0.y ) + d1;
+
+    if( uir < 1e-12 * mc )
+        uir = 1e-12 * mc;
+
     d1 = d2 - d1;
 
     if( abs( d1 ) > uir )
-- 
2.43.0


From 45316c77f6ce5bdd226cada6be7786c8e36929ee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 067/102] fix: intersection of 2 arcs tested against the wrong
 center

---
 src/geom/mcad_segment.cpp | 120 +++++++++-----------------------------
 1 file changed, 27 insertions(+), 93 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..aad7d16 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -545,6 +545,20 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
 }
 
 
+// return true if the given angle is within the arc which sweeps counterclockwise
+// from aStart to aEnd; the angle is shifted into the range aStart .. aStart + 2*PI
+static bool angleInArc( double& aAngle, double aStart, double aEnd, double aTolerance )
+{
+    while( aAngle < aStart - aTolerance )
+        aAngle += 2.0 * M_PI;
+
+    while( aAngle >= aStart - aTolerance + 2.0 * M_PI )
+        aAngle -= 2.0 * M_PI;
+
+    return ( aAngle <= aEnd + aTolerance );
+}
+
+
 // check case where both segments are arcs (one may be a circle)
 bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
                               std::list<MCAD_POINT>& aIntersectList,
@@ -742,104 +756,29 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p2;
     calcCircleIntercepts( c2, r2, d, p1, p2 );
 
-    // determine if any of the points lie on *this arc and
-    // place them in a ccw order
+    // determine if any of the points lie on both arcs and
+    // place them in a ccw order along *this arc
 
     double angX0 = atan2( p1.y - mcenter.y, p1.x - mcenter.x );
     double angX1 = atan2( p2.y - mcenter.y, p2.x - mcenter.x );
+    double angY0 = atan2( p1.y - c2.y, p1.x - c2.x );
+    double angY1 = atan2( p2.y - c2.y, p2.x - c2.x );
     MCAD_POINT p0[2];
     double ang0[2];
     int np = 0;
-    int isOnArc[2];
-    double tang;
-
-    isOnArc[0] = 0;
-    isOnArc[1] = 0;
-
-    if ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[1];
-        }
-    }
+    bool isCirc0 = ( MCAD_SEGTYPE_CIRCLE == msegtype );
+    bool isCirc1 = ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() );
 
-    if( MCAD_SEGTYPE_CIRCLE == msegtype )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
+    if( ( isCirc0 || angleInArc( angX0, a0, a1, 1e-8 / mradius ) )
+        && ( isCirc1 || angleInArc( angY0, b0, b1, 1e-8 / r2 ) ) )
     {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[1];
-        }
-    }
-
-    if( angX0 < a0 )
-        angX0 += 2.0 * M_PI;
-
-    if( angX1 < a0 )
-        angX1 += 2.0 * M_PI;
-
-    if( 2 == isOnArc[0] )
-    {
-        p0[0] = p1;
-        ang0[0] = angX0;
+        p0[np] = p1;
+        ang0[np] = angX0;
         ++np;
     }
 
-    if( 2 == isOnArc[1] )
+    if( ( isCirc0 || angleInArc( angX1, a0, a1, 1e-8 / mradius ) )
+        && ( isCirc1 || angleInArc( angY1, b0, b1, 1e-8 / r2 ) ) )
     {
         p0[np] = p2;
         ang0[np] = angX1;
@@ -859,12 +798,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
 
     // adjust range to fit within a0 .. a1
     for( int i = 0; i < np; ++i )
-    {
-        if( ang0[i] < a0 )
-            ang0[i] += 2.0*M_PI;
-        else if ( ang0[i] > a1 )
-            ang0[i] -= 2.0*M_PI;
-    }
+        angleInArc( ang0[i], a0, a1, 1e-8 / mradius );
 
     if( ang0[0] > ang0[1] )
     {
-- 
2.43.0


From 9f7739a0582016f498c623483eee7059480c8a84 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 068/102] fix: tangent circles and arcs not recognized

---
 src/geom/mcad_segment.cpp | 46 ++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index aad7d16..7acfafc 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -497,7 +497,7 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     double dy = mcenter.y - c2.y;
     double d= sqrt( dx*dx + dy*dy );
 
-    if( d > ( mradius + r2 ) )
+    if( d > ( mradius + r2 + 0.001 ) )
         return false;
 
     // check if the circles are identical
@@ -520,14 +520,14 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     if( d < mradius || d < r2)
     {
         // check if aSegment is inside this circle
-        if( d <= (mradius - r2) )
+        if( d <= (mradius - r2 + 0.001) )
         {
             flags = MCAD_IFLAG_ENCIRCLES;
             return false;
         }
 
         // check if this circle is inside aSegment
-        if( d <= (r2 - mradius) )
+        if( d <= (r2 - mradius + 0.001) )
         {
             flags = MCAD_IFLAG_INSIDE;
             return false;
@@ -581,41 +581,37 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     // and we must inform the calling routine of the problem (invalid geometry)
 
     // check if no intersection possible
-    if( (d > ( mradius + r2 )) || ((d + r2) < mradius) || ((d + mradius) < r2) )
+    if( (d > ( mradius + r2 + 0.001 )) || ((d + r2 + 0.001) < mradius) || ((d + mradius + 0.001) < r2) )
         return false;
 
-    if( abs( d - mradius - r2 ) < 0.001 )
+    bool isSame = ( PointMatches( mcenter, c2, 1e-3 ) && abs( mradius - r2 ) < 1e-3 );
+    bool isInTang = ( !isSame && abs( d - abs( mradius - r2 ) ) < 0.001 );
+
+    if( abs( d - mradius - r2 ) < 0.001 || isInTang )
     {
         // calculate the intersection point and check if it lies on both arcs
         double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
-        double tang1;
-
-        if( tang0 > 0.0 )
-            tang1 = tang0 - M_PI;
-        else
-            tang1 = tang0 + M_PI;
-
-        if( tang0 > a0 )
-            tang0 -= 2.0 * M_PI;
-
-        if( tang0 < a0 )
-            tang0 += 2.0 * M_PI;
+        double tang1 = tang0 + M_PI;
 
-        if( tang1 > b0 )
-            tang1 -= 2.0 * M_PI;
-
-        if( tang1 < b0 )
-            tang1 += 2.0 * M_PI;
+        if( isInTang )
+        {
+            // the smaller circle is inside the larger one so the
+            // point is in the same direction from both centers
+            if( mradius < r2 )
+                tang0 += M_PI;
+            else
+                tang1 = tang0;
+        }
 
-        if( tang0 >= a0 && tang0 <= a1 && tang1 >= b0 && tang1 <= b1 )
+        if( ( MCAD_SEGTYPE_CIRCLE == msegtype || angleInArc( tang0, a0, a1, 1e-8 / mradius ) )
+            && ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() || angleInArc( tang1, b0, b1, 1e-8 / r2 ) ) )
             flags = MCAD_IFLAG_TANGENT;
 
         return false;
     }
 
     // check if the arcs are identical
-    if ( PointMatches( mcenter, c2, 1e-3 )
-        && abs( mradius - r2 ) < 1e-3 )
+    if ( isSame )
     {
         // there may be an intersection along an edge
         if( MCAD_SEGTYPE_CIRCLE == msegtype )
-- 
2.43.0


From edceb5c5767eeeadac62e1acd4f5d74b6d598185 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 069/102] fix: overlap of arcs of the same circle

---
 src/geom/mcad_segment.cpp | 99 ++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 7acfafc..92de6df 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -574,12 +574,6 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     double b0 = aSegment.GetStartAngle();
     double b1 = aSegment.GetEndAngle();
 
-    // XXX -
-    // WARNING: TO BE IMPLEMENTED
-    // XXX - we may have a condition where we have 2 edge overlaps;
-    // this violates our constraint of 0 or 2 point intersections
-    // and we must inform the calling routine of the problem (invalid geometry)
-
     // check if no intersection possible
     if( (d > ( mradius + r2 + 0.001 )) || ((d + r2 + 0.001) < mradius) || ((d + mradius + 0.001) < r2) )
         return false;
@@ -630,70 +624,67 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             return true;
         }
 
-        // Special case: arcs only intersect at their endpoints;
-        // we must return the endpoints with the flag MCAD_IFLAG_ENDPOINT
-        // possible sub-cases:
-        // b1 == a0, b0 == a1 - 2*M_PI
-        // a1 == b0, a0 == b1 - 2*M_PI
-        // b0 == a1, b1 == a0 + 2*M_PI
-        // a0 == b1, a1 == b0 + 2*M_PI
-        if( (abs(b1 - a0) < 1e-8 && abs(b0 -a1 + 2.0*M_PI) < 1e-8)
-            || (abs(a1 - b0) < 1e-8 && abs(a0 -b1 + 2.0*M_PI) < 1e-8)
-            || (abs(b0 - a1) < 1e-8 && abs(b1 -a0 - 2.0*M_PI) < 1e-8)
-            || (abs(a0 - b1) < 1e-8 && abs(a1 -b0 - 2.0*M_PI) < 1e-8) )
-        {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_ENDPOINT;
-            return true;
-        }
+        // both arcs are part of the same circle; consider the pieces of *this
+        // arc, [0 .. sw0] as measured from the start, which are on aSegment
+        const double tol = 1e-8 / mradius;
+        double sw0 = a1 - a0;
+        double sw1 = b1 - b0;
+        double bs = b0;
+        angleInArc( bs, a0, a1, tol );
+        bs -= a0;
 
-        // XXX - TO BE IMPLEMENTED
-        // Special case: arcs intersect at only a single endpoint
+        int nEdge = 0;
+        list<MCAD_POINT> touch;
 
-        // determine if an entire segment is enveloped
-        if( (b0 >= a0 && b1 <= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b1 + 2.0*M_PI) <= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        if( bs < sw0 - tol )
         {
+            // aSegment starts on *this arc
             aIntersectList.push_back( aSegment.GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
-        }
 
-        if( (a0 >= b0 && a1 <= b1)
-            || (a0 >= (b0 + 2.0*M_PI) && a1 <= (b1 + 2.0*M_PI))
-            || (a0 >= (b0 - 2.0*M_PI) && a1 <= (b1 - 2.0*M_PI)) )
+            if( bs + sw1 < sw0 )
+                aIntersectList.push_back( aSegment.GetEnd() );
+            else
+                aIntersectList.push_back( GetEnd() );
+
+            ++nEdge;
+        }
+        else if( bs <= sw0 + tol )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+            touch.push_back( GetEnd() );
         }
 
-        // case 1: aSegment encompasses the start of *this
-        if( (b0 <= a0 && b1 >= a0 && b1 <= a1)
-            || ((b0 - 2.0*M_PI) <= a0 && (b1 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        double be = bs + sw1 - 2.0 * M_PI;
+
+        if( be > tol )
         {
+            // aSegment passes over the start of *this arc
             aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+
+            if( be < sw0 )
+                aIntersectList.push_back( aSegment.GetEnd() );
+            else
+                aIntersectList.push_back( GetEnd() );
+
+            ++nEdge;
+        }
+        else if( be >= -tol )
+        {
+            touch.push_back( GetStart() );
         }
 
-        // case 2: aSegment encompasses the end of *this
-        if( (b0 >= a0 && b0 <= a1 && b1 >= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b0 + 2.0*M_PI) <= a1 && (b1 + 2.0*M_PI) >= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b0 - 2.0*M_PI) <= a1 && (b1 - 2.0*M_PI) >= a1) )
+        if( nEdge )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
+            flags = ( nEdge > 1 ) ? MCAD_IFLAG_MULTIEDGE : MCAD_IFLAG_EDGE;
             return true;
         }
 
-        return false;
+        if( touch.empty() )
+            return false;
+
+        // the arcs only intersect at their endpoints
+        aIntersectList.splice( aIntersectList.end(), touch );
+        flags = MCAD_IFLAG_ENDPOINT;
+        return true;
     }
 
     // Special cases: arcs only intersect at their endpoints
-- 
2.43.0


From e114a0aa751488bcd4f4e8279f145d7278cfc306 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 070/102] fix: end of an arc missed or invented by the
 intersection with a line

---
 src/geom/mcad_segment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 92de6df..46ef475 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -901,7 +901,7 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         {
             double t = -B / ( 2.0 * A );
 
-            if( t < 0.0 || t > 1.0 )
+            if( t < -1e-8 || t > 1.0 + 1e-8 )
                 return false;
 
             flags = MCAD_IFLAG_TANGENT;
@@ -915,7 +915,7 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         tangent = true;
     }
 
-    if( D < 0 )
+    if( D < 0 && !tangent )
         return false;
 
     double t0;
@@ -936,7 +936,7 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p[2];
     MCAD_INTERSECT_FLAG f[2];
 
-    if( t0 >= 0.0 && t0 <= 1.0 )
+    if( t0 >= -1e-8 && t0 <= 1.0 + 1e-8 )
     {
         p[0].x = t0 * lS.x + (1.0 - t0) * lE.x;
         p[0].y = t0 * lS.y + (1.0 - t0) * lE.y;
@@ -951,7 +951,7 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         ++np;
     }
 
-    if( !tangent && t1 >= 0.0 && t1 <= 1.0 )
+    if( !tangent && t1 >= -1e-8 && t1 <= 1.0 + 1e-8 )
     {
         p[np].x = t1 * lS.x + (1.0 - t1) * lE.x;
         p[np].y = t1 * lS.y + (1.0 - t1) * lE.y;
@@ -1023,10 +1023,10 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         // in the angle calculations which may result in false negatives.
         if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
             || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - mstart.x ) < 1e-14 && abs( p[i].y - mstart.y ) < 1e-14 )
-            || ( abs( p[i].x - mend.x ) < 1e-14 && abs( p[i].y - mend.y ) < 1e-14 ) )
+            || PointMatches( p[i], arcS, 1e-8 ) || PointMatches( p[i], arcE, 1e-8 ) )
         {
             pt[np2] = p[i];
+            f[np2] = f[i];
             ++np2;
         }
     }
-- 
2.43.0


From a82eb0f7a61217223515b1196a9e322dc898f0d6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 071/102] fix: overlap of colinear lines

---
 src/geom/mcad_segment.cpp | 100 ++++++++------------------------------
 1 file changed, 19 insertions(+), 81 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 46ef475..fd45d25 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1139,33 +1139,6 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
         // if there is an overlap the points must be in order 0 <= t1 < t2 <= 1
         // as parameterized on *this segment.
 
-        // cases:
-        // 1. (S0, E0) not in (S1, E1) *and* (S1, E1) not in (S0, E0): no overlap
-        // 2. [S0 and E0 in (S1, E1)] *or* [S1 and E1 in (S0, E0)]: one segment inside the other or equal
-        // 3. S0 or E0 in (S1, E1) *and* S1 or E1 in (S0, E1): partial overlap
-
-        bool s0i = false;
-        bool e0i = false;
-        bool s1i = false;
-        bool e1i = false;
-
-        if( abs( XA2 ) >= abs( YA2 ) )
-        {
-            t1 = ( mstart.x - XB2 ) / XA2;
-            t2 = ( mend.x - XB2 ) / XA2;
-        }
-        else
-        {
-            t1 = ( mstart.y - YB2 ) / YA2;
-            t2 = ( mend.y - YB2 ) / YA2;
-        }
-
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s0i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e0i = true;
-
         if( abs( XA1 ) >= abs( YA1 ) )
         {
             t1 = ( p0.x - XB1 ) / XA1;
@@ -1177,77 +1150,42 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
             t2 = ( p1.y - YB1 ) / YA1;
         }
 
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s1i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e1i = true;
-
-        if( !s0i && !e0i && !s1i && !e1i )
-            return false;
-
-        flags = MCAD_IFLAG_EDGE;
-
-        if( s0i && e0i )
+        if( t1 > t2 )
         {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( mend );
-            return true;
+            swap( t1, t2 );
+            swap( p0, p1 );
         }
 
-        if( s1i && e1i )
-        {
-            if( abs( XA1 ) >= abs( YA1 ) )
-            {
-                t1 = ( p0.x - XB1 ) / XA1;
-                t2 = ( p1.x - XB1 ) / XA1;
-            }
-            else
-            {
-                t1 = ( p0.y - YB1 ) / YA1;
-                t2 = ( p1.y - YB1 ) / YA1;
-            }
-
-            if( t1 < t2 )
-            {
-                aIntersectList.push_back( p0 );
-                aIntersectList.push_back( p1 );
-            }
-            else
-            {
-                aIntersectList.push_back( p1 );
-                aIntersectList.push_back( p0 );
-            }
-
-            return true;
-        }
+        if( t1 > 1.0 + 1e-8 || t2 < -1e-8 )
+            return false;
 
-        if( s0i && s1i )
+        // check for contact at an endpoint
+        if( t1 > 1.0 - 1e-8 )
         {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p0 );
+            aIntersectList.push_back( mend );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        if( s0i && e1i )
+        if( t2 < 1e-8 )
         {
             aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p1 );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        // must be e0i
+        flags = MCAD_IFLAG_EDGE;
 
-        if( s1i )
-        {
+        if( t1 > 0.0 )
             aIntersectList.push_back( p0 );
+        else
+            aIntersectList.push_back( mstart );
+
+        if( t2 < 1.0 )
+            aIntersectList.push_back( p1 );
+        else
             aIntersectList.push_back( mend );
-            return true;
-        }
 
-        // must be e0i && e1i
-        aIntersectList.push_back( p1 );
-        aIntersectList.push_back( mend );
         return true;
     }
 
-- 
2.43.0


From d6799eeac7902fc2157572bf2a54936363733c77 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 072/102] fix: inside test of points on the outline and level
 with endpoints or tangents

---
 src/geom/mcad_outline.cpp | 106 ++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..de861b7 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -276,6 +276,33 @@ bool MCAD_OUTLINE::IsContiguous( void )
 }
 
 
+// Returns 'true' if the line or arc leaves its start point (or end point;
+// both as viewed in CCW order) in a downward direction
+static bool leavesDown( MCAD_SEGMENT* aSegment, bool fromStart )
+{
+    MCAD_POINT p0 = aSegment->GetStart();
+    MCAD_POINT p1 = aSegment->GetEnd();
+
+    if( !fromStart )
+        swap( p0, p1 );
+
+    if( MCAD_SEGTYPE_LINE == aSegment->GetSegType() )
+        return ( p1.y < p0.y - 1e-8 );
+
+    MCAD_POINT c = aSegment->GetCenter();
+    double dy = p0.x - c.x;
+
+    if( !fromStart )
+        dy = -dy;
+
+    // if the tangent is horizontal then the arc bends towards the center
+    if( abs( dy ) < 1e-8 )
+        return ( c.y < p0.y );
+
+    return ( dy < 0.0 );
+}
+
+
 // Returns 'true' if the point is on or inside this outline
 bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
 {
@@ -295,8 +322,8 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     // 1. take a line passing through this point and directly to the
     //    left or right, whichever is the shortest segment.
     // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
+    //    count it as a node if the segment touched is below
+    //    aPoint.y in the vicinity of the endpoint.
     // 3. odd nodes = inside, even nodes = outside
 
     MCAD_POINT bb0 = mBottomLeft;
@@ -337,65 +364,30 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
 
             while( sL != eL )
             {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
+                // a point on the outline is inside
+                if( PointMatches( *sL, aPoint, 1e-8 ) )
+                    return true;
+
+                bool isEnd0 = false;
+                bool isEnd1 = false;
+
+                if( MCAD_SEGTYPE_CIRCLE != (*sSegs)->GetSegType() )
                 {
-                    ++nI;
+                    isEnd0 = PointMatches( *sL, (*sSegs)->GetStart(), 1e-8 );
+                    isEnd1 = PointMatches( *sL, (*sSegs)->GetEnd(), 1e-8 );
                 }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
 
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
-
-                    }
-                    else
-                    {
+                if( isEnd0 || isEnd1 )
+                {
+                    // count only the segments which leave the
+                    // endpoint in a downward direction
+                    if( leavesDown( *sSegs, isEnd0 ) )
                         ++nI;
-                    }
+                }
+                else if( MCAD_IFLAG_TANGENT != flag )
+                {
+                    // note: the outline does not cross the line at a tangent
+                    ++nI;
                 }
 
                 ++sL;
-- 
2.43.0


From 4da86103b22eb91aba41139a150e07e7828b2756 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 073/102] fix: deletion of an outline ignored the ownership
 rules

---
 src/idf/idf_outlines.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..28d1745 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1316,6 +1316,11 @@ bool BOARD_OUTLINE::AddOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
     std::list< IDF_OUTLINE* >::iterator itE = outlines.end();
 
@@ -1374,6 +1379,11 @@ bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( size_t aIndex )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
 
     if( outlines.empty() )
-- 
2.43.0


From 72a0f372685508aa2106d571f8411695966866e0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 074/102] fix: removal of a component's drilled hole ignored
 the owner of the hole

---
 src/idf/idf_parser.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..8e41c88 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1071,6 +1071,24 @@ bool IDF3_COMPONENT::DelDrill( double aDia, double aXpos, double aYpos )
     {
         if( (*itS)->Matches( aDia, aXpos, aYpos ) )
         {
+#ifndef DISABLE_IDF_OWNERSHIP
+            // the drill may be owned by an entity other than the component's owner
+            IDF3::KEY_OWNER keyo = (*itS)->GetDrillOwner();
+            IDF3::CAD_TYPE pcad = parent->GetCadType();
+
+            if( !( keyo == UNOWNED || ( keyo == MCAD && pcad == CAD_MECH )
+                || ( keyo == ECAD && pcad == CAD_ELEC ) ) )
+            {
+                ostringstream ostr;
+                ostr << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << "():\n";
+                ostr << "* ownership violation; drill owner is " << GetOwnerString( keyo );
+                errormsg = ostr.str();
+
+                ++itS;
+                continue;
+            }
+#endif
+
             val = true;
             delete *itS;
             itS = drills.erase( itS );
@@ -1102,6 +1120,23 @@ bool IDF3_COMPONENT::DelDrill( IDF_DRILL_DATA* aDrill )
     {
         if( *itS == aDrill )
         {
+#ifndef DISABLE_IDF_OWNERSHIP
+            // the drill may be owned by an entity other than the component's owner
+            IDF3::KEY_OWNER keyo = (*itS)->GetDrillOwner();
+            IDF3::CAD_TYPE pcad = parent->GetCadType();
+
+            if( !( keyo == UNOWNED || ( keyo == MCAD && pcad == CAD_MECH )
+                || ( keyo == ECAD && pcad == CAD_ELEC ) ) )
+            {
+                ostringstream ostr;
+                ostr << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << "():\n";
+                ostr << "* ownership violation; drill owner is " << GetOwnerString( keyo );
+                errormsg = ostr.str();
+
+                return false;
+            }
+#endif
+
             delete *itS;
             drills.erase( itS );
             return true;
-- 
2.43.0


From f4db725c5459ecc43b91b32af0f55dd361f1040b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 075/102] fix: component without a placement value could not be
 changed or deleted

---
 src/idf/idf_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8e41c88..2532562 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -173,7 +173,8 @@ bool IDF3_COMP_OUTLINE_DATA::checkOwnership( int aSourceLine, const char* aSourc
     IDF3::IDF_PLACEMENT placement = parent->GetPlacement();
     IDF3::CAD_TYPE parentCAD = parent->GetCadType();
 
-    if( placement == PS_PLACED || placement == PS_UNPLACED )
+    // a component with no placement value has no owner
+    if( placement == PS_PLACED || placement == PS_UNPLACED || placement == PS_INVALID )
         return true;
 
     if( placement == PS_MCAD && parentCAD == CAD_MECH )
@@ -1443,7 +1444,8 @@ bool IDF3_BOARD::checkComponentOwnership( int aSourceLine, const char* aSourceFu
 
     IDF3::IDF_PLACEMENT place = aComponent->GetPlacement();
 
-    if( place == PS_PLACED || place == PS_UNPLACED )
+    // a component with no placement value has no owner
+    if( place == PS_PLACED || place == PS_UNPLACED || place == PS_INVALID )
         return true;
 
     if( place == PS_MCAD && cadType == CAD_MECH )
-- 
2.43.0


From a0e7df8dc3b946f2c232079b3660d9945e844686 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 076/102] fix: DelComponent deleted another component with the
 same designator

---
 src/idf/idf_parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 2532562..fbd2bb6 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3738,8 +3738,11 @@ bool IDF3_BOARD::DelComponent( IDF3_COMPONENT* aComponent )
         return false;
 #endif
 
-    std::map<std::string, IDF3_COMPONENT*>::iterator it =
-        components.find( aComponent->GetRefDes() );
+    std::map<std::string, IDF3_COMPONENT*>::iterator it = components.begin();
+
+    // the designator may be that of another component of this board
+    while( it != components.end() && it->second != aComponent )
+        ++it;
 
     if( it == components.end() )
         return false;
-- 
2.43.0


From bd8de60b9923484db283d9478504674dc4491683 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 077/102] fix: WriteFile wrote thou when millimetres were
 requested

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index fbd2bb6..2802598 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3135,7 +3135,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From 46dfa9928e013c3161948983762898cf5135aea1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 078/102] fix: no end of line after the side of an
 OTHER_OUTLINE written

---
 src/idf/idf_outlines.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 28d1745..f04a674 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1922,6 +1922,8 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
 
                 break;
         }
+
+        aBoardFile << "\n";
     }
 
     // write RECORD 3
-- 
2.43.0


From e4adfe11d9b6b9ce454b70002871f5c2d9e49691 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 079/102] fix: unspecified height of a PLACE_OUTLINE was
 written as -1

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f04a674..5189e44 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2608,7 +2608,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From ae25c8a4da35eb26bef823052411770df18906c3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 080/102] fix: outline data with offsets did not count its
 reference to the part

---
 src/idf/idf_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 2802598..7e31c22 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -146,6 +146,10 @@ IDF3_COMP_OUTLINE_DATA::IDF3_COMP_OUTLINE_DATA( IDF3_COMPONENT* aParent,
     yoff = aYoff;
     zoff = aZoff;
     aoff = aAngleOff;
+
+    if( aOutline )
+        aOutline->incrementRef();
+
     return;
 }
 
-- 
2.43.0


From 07bee9271caf910e233510f52c2815c24fdbb0d5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 081/102] fix: offsets of an outline on the bottom side were
 written mirrored but read unmirrored

---
 src/idf/idf_parser.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 7e31c22..6946cff 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -771,22 +771,10 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
     }
 
     // calculate the final position based on layer
-    double xpos, ypos, ang;
-
-    switch( aSide )
-    {
-        case LYR_TOP:
-            xpos = aXpos + xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle + aoff;
-            break;
-
-        default:
-            xpos = aXpos - xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle - aoff;
-            break;
-    }
+    // the offsets are relative to the position of the component, regardless of its side
+    double xpos = aXpos + xoff;
+    double ypos = aYpos + yoff;
+    double ang  = aAngle + aoff;
 
     std::string arefdes = aRefDes;
 
-- 
2.43.0


From 652b9f7ac20a9833b906b7d88285eedfabb74f6b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 082/102] fix: designator with spaces was written without
 quotes in the placement section

---
 src/idf/idf_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 6946cff..cbd6b16 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -781,6 +781,8 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
     if( arefdes.empty() || !arefdes.compare( "~" )
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
+    else
+        arefdes = "\"" + arefdes + "\"";
 
     aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
     << arefdes << "\n";
-- 
2.43.0


From bdb8f920c6d9d7e264418b412a948215179fea69 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 083/102] fix: outlines, owner and comments of the board
 outline survived Clear

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cbd6b16..2286ff8 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4234,6 +4234,7 @@ void IDF3_BOARD::Clear( void )
     } while(0);
 
     boardName.clear();
+    olnBoard.clear();
     olnBoard.setThickness( thickness );
 
     state     = FILE_START;
-- 
2.43.0


From a7472de97694f710948bae83cad9974850dc46ba Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 084/102] fix: comment within an outline was read as a point

---
 src/idf/idf_outlines.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 5189e44..2ce8cf0 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -180,6 +180,16 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         if( !FetchIDFLine( aBoardFile, iline, comment, pos ) )
             continue;
 
+        if( comment )
+        {
+            ostringstream ostr;
+
+            ostr << "\n* invalid outline: comment within a section (" << GetOutlineTypeString( outlineType );
+            ostr << ")\n* line: '" << iline << "'";
+
+            throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
+        }
+
         idx = 0;
         GetIDFString( iline, entry, quoted, idx );
 
-- 
2.43.0


From 0ac678f437832040b7d877af12b96cd791b3f1c3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 085/102] fix: unread text of a number was prepended to the
 next number of an outline

---
 src/idf/idf_outlines.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 2ce8cf0..04a0f82 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -250,7 +250,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> tmp;
         if( tstr.fail() )
@@ -454,7 +454,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> x;
         if( tstr.fail() )
@@ -494,7 +494,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> y;
         if( tstr.fail() )
@@ -534,7 +534,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> ang;
         if( tstr.fail() )
-- 
2.43.0


From adf63f3ebd18de29695734dd1f849faec9490f8e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 086/102] fix: properties accepted after an outline which was
 not closed

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 04a0f82..90951a9 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -255,7 +255,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         tstr >> tmp;
         if( tstr.fail() )
         {
-            if( outlineType == OTLN_COMPONENT && CompareToken( "PROP", entry ) )
+            if( outlineType == OTLN_COMPONENT && CompareToken( "PROP", entry ) && ( npts == 0 || closed ) )
             {
                 aBoardFile.seekg( pos );
                 return;
-- 
2.43.0


From 044b0db0e6850a8934602d1ec31bada0f51c0ed3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 087/102] fix: end of a section refused on a last line without
 end of line

---
 src/idf/idf_outlines.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 90951a9..73b9016 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1194,7 +1194,7 @@ void BOARD_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -1714,7 +1714,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
         // [outline identifier] [thickness] [board side: Top/Bot]
         while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-        if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+        if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
         {
             ostringstream ostr;
 
@@ -1835,7 +1835,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2150,7 +2150,7 @@ void ROUTE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2538,7 +2538,7 @@ void PLACE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2890,7 +2890,7 @@ void GROUP_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -3342,7 +3342,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     // check RECORD 4
     while( aLibFile.good() && !FetchIDFLine( aLibFile, iline, comment, pos ) );
 
-    if( ( !aLibFile.good() && aLibFile.eof() ) || iline.empty() )
+    if( ( !aLibFile.good() && !aLibFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
-- 
2.43.0


From 9d41d326ad140688eea6f43e0197f893e9cc2906 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 088/102] fix: empty comment dropped the comments of a library
 section

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 2286ff8..34a2a4b 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2486,7 +2486,7 @@ void IDF3_BOARD::readLibSection( std::ifstream& aLibFile, IDF3::FILE_STATE& aLib
         }
 
         // no data was read; this only happens at eof()
-        if( iline.empty() )
+        if( iline.empty() && !isComment )
         {
             delete pout;
             return;
-- 
2.43.0


From af4e4cb80a2f78dc1c4091cca47528de5c0ed52b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:01:34 +0000
Subject: [PATCH 089/102] fix: unknown or misspelt section of a board file was
 skipped silently

---
 src/idf/idf_parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 34a2a4b..0758062 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2343,6 +2343,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
 
             return;
         }
+
+        do
+        {
+            ostringstream ostr;
+            ostr << "invalid IDF file\n";
+            ostr << "* Violation of specification: unknown section\n";
+            ostr << "* line: '" << iline << "'";
+
+            throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
+        } while( 0 );
     }   // while( aBoardFile.good()
 
     return;
-- 
2.43.0


From 5f88fa5cc9e624e905ef0dba1b6982ee09861311 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:42:47 +0000
Subject: [PATCH 090/102] fix: section head in an unterminated last line of a
 board file was ignored

---
 src/idf/idf_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 0758062..06c5d2d 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1958,7 +1958,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
     {
         while( !FetchIDFLine( aBoardFile, iline, isComment, pos ) && aBoardFile.good() );
 
-        if( !aBoardFile.good() )
+        // note: the last line of a file may lack a line end
+        if( !aBoardFile.good() && ( !aBoardFile.eof() || iline.empty() ) )
         {
             if( aBoardFile.eof() && aBoardState >= IDF3::FILE_HEADER && aBoardState < IDF3::FILE_INVALID )
             {
-- 
2.43.0


From 2f5395340c46d7e0f9c6c57e670055f6a78edaa7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:02:38 +0000
Subject: [PATCH 091/102] fix: idf2igs crashed on a part without an outline

---
 src/idf/idf2igs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..75bb884 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1120,7 +1120,7 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     // note we defeat the 'const' attribute here
     IDF_OUTLINE* op = ((IDF3_COMP_OUTLINE*)idf)->GetOutline( 0 );
 
-    if( op->empty() )
+    if( NULL == op || op->empty() )
         return true;
 
     double th = idf->GetThickness();
-- 
2.43.0


From 8eff7d1fa6f52183dca89220bf5519a8bf6d4c87 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:02:38 +0000
Subject: [PATCH 092/102] fix: idf2igs crashed on the placement of a part
 missing in the library

---
 src/idf/idf2igs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 75bb884..a1e5d05 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -915,6 +915,13 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
         while( so != eo )
         {
+            if( NULL == (*so)->GetOutline() )
+            {
+                // the part is not in the library
+                ++so;
+                continue;
+            }
+
             uid = ((IDF3_COMP_OUTLINE*)((*so)->GetOutline()))->GetUID().c_str();
             map<string, IGES_ENTITY_308*>::iterator outline =
                 componentList.find( uid );
-- 
2.43.0


From c2cb78b45f8970cb9b1e95fb1002b73dcc09e081 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 093/102] fix: idf2igs lost every other outline but the first

---
 src/idf/idf2igs.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index a1e5d05..be43b6a 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -973,8 +973,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
     std::map< std::string, OTHER_OUTLINE* >::const_iterator sc = comp->begin();
     std::map< std::string, OTHER_OUTLINE* >::const_iterator ec = comp->end();
 
-    DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
-
     while( sc != ec )
     {
         if( sc->second->OutlinesSize() < 1 )
@@ -983,6 +981,7 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
             continue;
         }
 
+        DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
         DLL_MCAD_OUTLINE  loop( false );    // individual outlines
         MCAD_OUTLINE* pIGS;
         list< MCAD_OUTLINE* > cutouts;
@@ -1093,10 +1092,10 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         e408.SetLabel( sc->first.c_str() );
         e408.Detach();
         subfig.Detach();
+        otln.Detach();
         ++sc;
     }
 
-    otln.Detach();
     return true;
 }
 
-- 
2.43.0


From b9a824970d09d97ce30d168797c43512a45d7bb9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 094/102] fix: arc ending on the x axis gave a degenerate
 cylinder piece and no wall

---
 src/geom/geom_cylinder.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..7a54713 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -43,6 +43,20 @@
 
 using namespace std;
 
+// move an angle which is 0 or +/- M_PI to within the given tolerance
+// to exactly 0 or M_PI
+static double snapAngle( double ang, double tol )
+{
+    if( abs( ang ) < tol )
+        return 0.0;
+
+    if( abs( abs( ang ) - M_PI ) < tol )
+        return M_PI;
+
+    return ang;
+}
+
+
 // make a 3D linear NURB from 2 points
 static bool makeNurb( double* p0, double* p1, SISLCurve** pCurve )
 {
@@ -168,6 +182,19 @@ bool IGES_GEOM_CYLINDER::SetParams( MCAD_POINT center, MCAD_POINT start, MCAD_PO
     double ang1 = atan2( start.y - center.y, start.x - center.x );
     double ang2 = atan2( end.y - center.y, end.x - center.x );
 
+    // an arc which starts or ends on one of the splitting points (0 and
+    // M_PI) to within the precision of the points must not leave a
+    // degenerate piece on the other side of the splitting point
+    double tol = 1e-8 / radius;
+    double snap1 = snapAngle( ang1, tol );
+    double snap2 = snapAngle( ang2, tol );
+
+    if( abs( snap1 - snap2 ) > 0.0 )
+    {
+        ang1 = snap1;
+        ang2 = snap2;
+    }
+
     // ensure that the final angle is always > start angle
     if( ang2 < ang1 )
         ang2 += 2.0 * M_PI;
-- 
2.43.0


From c4dd9743de7c4be27c28416b8a57f190d8b632b9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:08:24 +0000
Subject: [PATCH 095/102] fix: arc ending on the x axis gave a degenerate curve
 and no plane

---
 src/geom/iges_geom_pcb.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..0800a50 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -49,6 +49,31 @@
 
 using namespace std;
 
+// move the angles of an arc which are within the precision of its points
+// of a multiple of M_PI to that multiple; arcs are split at these multiples
+// and must not leave a degenerate piece on the other side
+static void snapAngles( double& aStart, double& aEnd, double aRadius )
+{
+    double tol = 1e-8 / aRadius;
+    double s = M_PI * floor( aStart / M_PI + 0.5 );
+    double e = M_PI * floor( aEnd / M_PI + 0.5 );
+
+    if( fabs( s - aStart ) >= tol )
+        s = aStart;
+
+    if( fabs( e - aEnd ) >= tol )
+        e = aEnd;
+
+    if( e > s )
+    {
+        aStart = s;
+        aEnd = e;
+    }
+
+    return;
+}
+
+
 #define GEOM_ERR( msg ) do { \
     msg.str(""); \
     msg << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << ": "; \
@@ -1184,6 +1209,8 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
         a1 = aSegment->GetMEAngle();
     }
 
+    snapAngles( a0, a1, mradius );
+
     if( a0 >= 0.0 && a0 < M_PI )
     {
         if( a1 <= M_PI )
@@ -1630,6 +1657,7 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
 
     sAng = aSegment->GetStartAngle();
     eAng = aSegment->GetEndAngle();
+    snapAngles( sAng, eAng, mradius );
 
     ptArc[0] = mstart;
     ptArc[0].x = ( ptArc[0].x - offX ) * aScale;
-- 
2.43.0


From 0d2bd8490d7d47db88230591a743e631be3c0c62 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 096/102] fix: outline limits were not recalculated after an
 operation

---
 src/geom/mcad_outline.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index de861b7..1574f3d 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -326,6 +326,10 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     //    aPoint.y in the vicinity of the endpoint.
     // 3. odd nodes = inside, even nodes = outside
 
+    // the outline may have changed since the limits were calculated
+    if( !mBBisOK )
+        calcBoundingBox();
+
     MCAD_POINT bb0 = mBottomLeft;
     MCAD_POINT bb1 = mTopRight;
 
@@ -869,6 +873,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
 
     } while( 0 );
 
+    // the outline will change, so the limits need to be recalculated
+    mBBisOK = false;
+
     MCAD_POINT pF[2];   // final point order
     bool isEnd[2];      // indicates if pF[n] is an endpoint
     list<MCAD_SEGMENT*>::iterator pSeg[2]; // segment iterators associated with each point
@@ -1627,6 +1634,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         return false;
     }
 
+    // the outline will change, so the limits need to be recalculated
+    mBBisOK = false;
+
     // f. A test for invalid geometry: if both (d) and (e) are
     //    inside (or outside) then we have invalid geometry due
     //    to a case of 2 non-overlapping outlines coinciding at
-- 
2.43.0


From c6d0466d3a196e6a14a891a65a9d478140890d66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 097/102] fix: subtracted outline was stitched in the wrong
 order

---
 src/geom/mcad_outline.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 1574f3d..3f54525 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1825,14 +1825,10 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         // insert the remaining segments of aOutline starting at
         // the CCW-most position and with each aOutline segment
         // reversed and in the reverse order within the list
-        list<MCAD_SEGMENT*>::iterator eT = oSegs.front();
+        // note: eSegO is the last of the remaining segments
+        list<MCAD_SEGMENT*>::iterator eT = eSegO;
         list<MCAD_SEGMENT*>::iterator qT;
 
-        if( eT == aOutline->msegments.begin() )
-            eT = --aOutline->msegments.end();
-        else
-            --eT;
-
         eSegT = lSegs.front();
 
         while( !aOutline->msegments.empty() )
-- 
2.43.0


From 7cd1960ef8c055016937d2cf44b1b260c0056e3c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 098/102] fix: circle replacing all but the middle of one
 segment gave a broken outline

---
 src/geom/mcad_outline.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 3f54525..a93765b 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1014,6 +1014,22 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
                 return false;
             }
 
+            if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+            {
+                // the circle replaces everything but the part of the
+                // segment between the two points
+                while( !msegments.empty() )
+                {
+                    delete msegments.front();
+                    msegments.pop_front();
+                }
+
+                msegments.push_back( sList.front() );
+                msegments.push_back( sp );
+                delete sList.back();
+                return true;
+            }
+
             // replace the first new segment with the arc
             delete sList.front();
             sList.pop_front();
-- 
2.43.0


From 5cf8181f56ea24bd82236a6c25d7017317b83a90 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:06:37 +0000
Subject: [PATCH 099/102] fix: addition to an outline with a clockwise arc
 never ended

---
 src/geom/mcad_outline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index a93765b..6dc41ea 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1890,13 +1890,14 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            // note: GetStart(), GetEnd() ensure CCW order on an arc
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From 8affda4fcb6ffa0328fa768e981ce92c0915b0ee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 100/102] fix: crossing at the end of a segment crossed twice
 was refused

---
 src/geom/mcad_outline.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 6dc41ea..e12382d 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1426,8 +1426,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the ends of the segment may have been changed
+            // by splitting it at the first point
+            if( !( iPts == iList.begin() ? p1e : p2e ) )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1504,8 +1505,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the ends of the segment may have been changed
+            // by splitting it at the first point
+            if( !( iPts == iList.begin() ? p1e : p2e ) )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
-- 
2.43.0


From 409fa8711d1993b48f4cfe8aa62514526fc6a2eb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:47:15 +0000
Subject: [PATCH 101/102] fix: holes within holes or cutouts or beside the
 board gave a broken board

---
 src/idf/idf2igs.cpp | 154 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 154 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index be43b6a..49cdd0b 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -81,6 +81,12 @@ bool convertDrills( list< MCAD_SEGMENT* >& drills, const list< IDF_DRILL_DATA* >
 bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts, bool& error );
 // take given drill list and punch a cutout using nearest holes in succession
 bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts );
+// remove drills which are within another drill
+void dropCoveredDrills( list< MCAD_SEGMENT* >& drills );
+// tell whether a drill (which does not cross the outline) is inside the outline
+bool isDrillInside( DLL_MCAD_OUTLINE& outline, MCAD_SEGMENT* drill );
+// tell whether the outline (which does not cross the drill) is within a drill
+bool isWithinDrill( DLL_MCAD_OUTLINE& outline, MCAD_SEGMENT* drill );
 // delete drill data
 void killDrills( list< MCAD_SEGMENT* >& drills );
 // delete cutout data
@@ -206,6 +212,27 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     // extract the board outline and cutouts
     while( scont != econt )
     {
+        if( scont != rcont && (*scont)->size() == 1 && (*(*scont)->begin())->IsCircle() )
+        {
+            // a circular cutout is the same as a drill hole
+            IDF_SEGMENT* ps = *(*scont)->begin();
+            DLL_MCAD_SEGMENT sp( false );
+            MCAD_POINT p[2];
+
+            p[0].x = ps->center.x;
+            p[0].y = ps->center.y;
+            p[0].z = 0.0;
+            p[1] = p[0];
+            p[1].x += ps->radius;
+
+            sp.NewSegment();
+            sp.SetParams( p[0], p[1], p[1], false );
+            drills.push_back( sp.GetRawPtr() );
+            sp.Detach();
+            ++scont;
+            continue;
+        }
+
         if( scont == rcont )
         {
             pIGS = otln.GetRawPtr();
@@ -254,6 +281,7 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 
     // check drill list for overlapping drills and convert all overlapping drills to cutouts
     bool dud = false;
+    dropCoveredDrills( drills );
     mergeDrills( drills, cutouts, dud );
 
     if( dud )
@@ -287,6 +315,16 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
             return false;
         }
 
+        // a drill beside the board leaves no hole
+        if( !isDrillInside( otln, *sDH ) )
+        {
+            DLL_MCAD_SEGMENT dh( false );
+            dh.Attach( *sDH );
+            dh.DelSegment();
+            sDH = drills.erase( sDH );
+            continue;
+        }
+
         ++sDH;
     }
 
@@ -317,9 +355,30 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
                 return false;
             }
 
+            // a drill within a cutout leaves no hole of its own
+            if( isDrillInside( mO, *sDH ) )
+            {
+                DLL_MCAD_SEGMENT dh( false );
+                dh.Attach( *sDH );
+                dh.DelSegment();
+                sDH = drills.erase( sDH );
+                continue;
+            }
+
+            // the drill removes the whole cutout
+            if( isWithinDrill( mO, *sDH ) )
+                break;
+
             ++sDH;
         }
 
+        if( sDH != eDH )
+        {
+            mO.DelOutline();
+            sMO = cutouts.erase( sMO );
+            continue;
+        }
+
         mO.Detach();
         ++sMO;
     }
@@ -666,6 +725,101 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
 }
 
 
+// remove drills which are within (or the same as) another drill
+void dropCoveredDrills( list< MCAD_SEGMENT* >& drills )
+{
+    list< MCAD_SEGMENT* >::iterator sD = drills.begin();
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_POINT p0;
+    MCAD_POINT p1;
+    double r0;
+    double r1;
+
+    while( sD != drills.end() )
+    {
+        seg.Attach( *sD );
+        seg.GetCenter( p0 );
+        seg.GetRadius( r0 );
+        seg.Detach();
+
+        list< MCAD_SEGMENT* >::iterator iD = drills.begin();
+
+        for( ; iD != drills.end(); ++iD )
+        {
+            if( iD == sD )
+                continue;
+
+            seg.Attach( *iD );
+            seg.GetCenter( p1 );
+            seg.GetRadius( r1 );
+            seg.Detach();
+
+            double dx = p1.x - p0.x;
+            double dy = p1.y - p0.y;
+
+            if( sqrt( dx*dx + dy*dy ) + r0 <= r1 + 1e-8 )
+                break;
+        }
+
+        if( iD != drills.end() )
+        {
+            seg.Attach( *sD );
+            seg.DelSegment();
+            sD = drills.erase( sD );
+            continue;
+        }
+
+        ++sD;
+    }
+
+    return;
+}
+
+
+bool isDrillInside( DLL_MCAD_OUTLINE& outline, MCAD_SEGMENT* drill )
+{
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_POINT p0;
+    bool dud = false;
+
+    seg.Attach( drill );
+    seg.GetStart( p0 );
+    seg.Detach();
+
+    return outline.IsInside( p0, dud );
+}
+
+
+bool isWithinDrill( DLL_MCAD_OUTLINE& outline, MCAD_SEGMENT* drill )
+{
+    MCAD_SEGMENT** segs = NULL;
+    int nSegs = 0;
+
+    if( !outline.GetSegments( segs, nSegs ) || nSegs < 1 )
+        return false;
+
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_POINT p0;
+    MCAD_POINT p1;
+    double r;
+
+    seg.Attach( segs[0] );
+    seg.GetStart( p1 );
+    seg.Detach();
+    delete [] segs;
+
+    seg.Attach( drill );
+    seg.GetCenter( p0 );
+    seg.GetRadius( r );
+    seg.Detach();
+
+    double dx = p1.x - p0.x;
+    double dy = p1.y - p0.y;
+
+    return sqrt( dx*dx + dy*dy ) < r;
+}
+
+
 // take given drill list and punch a cutout using nearest holes in succession
 bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts )
 {
-- 
2.43.0


From a07bc1f2596b8510bf3195618b82d159c5dddc3b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:52:23 +0000
Subject: [PATCH 102/102] fix: idf2igs used a deleted outline and reported
 success when a board could not be built

---
 src/idf/idf2igs.cpp | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 49cdd0b..de1e002 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -175,15 +175,31 @@ int main( int argc, char **argv )
     cerr << "Output file: '" << fname << "'\n";
 
     // STEP 1: Render the PCB alone
-    MakeBoard( pcb, model );
+    if( !MakeBoard( pcb, model ) )
+    {
+        cerr << "** Failed to create the board\n";
+        return -1;
+    }
 
     // STEP 2: Render the components
-    MakeComponents( pcb, model );
+    if( !MakeComponents( pcb, model ) )
+    {
+        cerr << "** Failed to create the components\n";
+        return -1;
+    }
 
     // STEP 3: Render the OTHER outlines
-    MakeOtherOutlines( pcb, model );
+    if( !MakeOtherOutlines( pcb, model ) )
+    {
+        cerr << "** Failed to create the other outlines\n";
+        return -1;
+    }
 
-    model.Write( fname.c_str(), true );
+    if( !model.Write( fname.c_str(), true ) )
+    {
+        cerr << "** Failed to write '" << fname << "'\n";
+        return -1;
+    }
 
     return 0;
 }
@@ -389,7 +405,12 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 
     while( sMO != eMO )
     {
-        otln.AddCutout( *sMO, true, dud );
+        if( !otln.AddCutout( *sMO, true, dud ) )
+        {
+            ERROR_IDF << "\n + could not add a cutout\n";
+            return false;
+        }
+
         ++sMO;
     }
 
@@ -715,6 +736,7 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
         if( !bundleDrills( *sB, cutouts ) )
         {
             ERROR_IDF << "\n + [INFO] problems encountered while merging drill holes\n";
+            error = true;
             return false;
         }
 
@@ -887,6 +909,8 @@ bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts
         if( !op.AddOutline( dist[i].second, dud ) )
         {
             ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
+            // note: the outline is deleted with the list of cutouts
+            op.Detach();
             return false;
         }
     }
@@ -1181,7 +1205,12 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         while( sMO != eMO )
         {
-            otln.AddCutout( *sMO, true, dud );
+            if( !otln.AddCutout( *sMO, true, dud ) )
+            {
+                ERROR_IDF << "\n + could not add a cutout\n";
+                return false;
+            }
+
             ++sMO;
         }
 
-- 
2.43.0


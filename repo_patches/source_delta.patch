From ee200d7ba17e48a57c7e030038fa774b6b3f4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 01/40] fix: make TimeSeries assignment release its data,
 survive self-assignment and drop the stale envelope

---
 src/TimeSeries.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..5a58ac5 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,9 +14,13 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
+  keoghCacheValid = false;
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
   start = other.start;
@@ -35,6 +39,13 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
+  keoghCacheValid = false;
   data = other.data;
   index = other.index;
   start = other.start;
@@ -50,7 +61,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
-- 
2.43.0


From 5a3c220a090068fb6460ab001236c1d595184bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 02/40] fix: compare candidate distances with std::abs instead
 of the integer abs

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 0a20713..3ec8b97 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -203,7 +203,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (abs(dist - rhs.dist) < EPS)
+    if (std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 593a0d3830bee456eac5257e155cde89b9488d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 03/40] fix: clear only the allocated bytes when loading data
 in single precision

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..d17faf7 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -110,7 +110,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
-- 
2.43.0


From 265085626ef573ee3693dc4140c93a32abbe40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 04/40] fix: release the old array with delete[] in PAA

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d17faf7..11eacfb 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -304,7 +304,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From 0d9fe46993d7a6a1df0fb3fb207fde5c69710752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 05/40] fix: include the last point of odd-length series in the
 range used to normalize

---
 src/TimeSeriesSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 11eacfb..606a8e0 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -226,8 +226,8 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
   {
     data_t x, y, z;
 
-    // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    // start at 0 if the number of points per series is even, 1 if odd
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From 8f2ce714fb61614f41961d328a4865d8b94688ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 06/40] fix: refuse empty or unreadable dataset files and
 starting columns outside the data

---
 src/TimeSeriesSet.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 606a8e0..1b65c58 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -90,6 +90,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     maxNumRow = std::min(maxNumRow, countNumberOfLines(f));
   }
 
+  if (maxNumRow == 0)
+  {
+    f.close();
+    throw OnexException("File is empty or cannot be read");
+  }
+
   int length = -1;
   string line;
   boost::char_separator<char> sep(separators.c_str());
@@ -109,6 +115,11 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (startCol < 0 || startCol >= length)
+        {
+          f.close();
+          throw OnexException("No column to read from the given starting column");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
-- 
2.43.0


From 13197dc00f566444c9dc39b60799850a24e583c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 07/40] fix: discard the groups of a dataset when its data
 changes

---
 src/GroupableTimeSeriesSet.cpp | 19 +++++++++++++++++++
 src/GroupableTimeSeriesSet.hpp |  8 ++++++++
 src/TimeSeriesSet.cpp          |  1 +
 src/TimeSeriesSet.hpp          |  6 +++---
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..59cb2e6 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -45,6 +45,25 @@ void GroupableTimeSeriesSet::reset()
   this->groupsAllLengthSet = nullptr;
 }
 
+void GroupableTimeSeriesSet::clearData()
+{
+  this->reset();
+  TimeSeriesSet::clearData();
+}
+
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  std::pair<data_t, data_t> range = TimeSeriesSet::normalize();
+  this->reset();
+  return range;
+}
+
+void GroupableTimeSeriesSet::PAA(int n)
+{
+  TimeSeriesSet::PAA(n);
+  this->reset();
+}
+
 void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly) const
 {
   if (!this->isGrouped()) {
diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..dddd7b7 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -44,6 +44,14 @@ public:
     */
   bool isGrouped() const;
 
+  /**
+   *  Groups refer to the values of the dataset they were made from, so they are
+   *  discarded by every operation that changes the data
+   */
+  void clearData() override;
+  std::pair<data_t, data_t> normalize() override;
+  void PAA(int n) override;
+
   void saveGroups(const std::string& path, bool groupSizeOnly) const;
   int loadGroups(const std::string& path);
   
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 1b65c58..d5dbc77 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -198,6 +198,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..cefdef6 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -61,7 +61,7 @@ public:
   /**
    * @brief clears all data
    */
-  void clearData();
+  virtual void clearData();
 
   /**
    * @brief gets length of each time series in the dataset
@@ -107,14 +107,14 @@ public:
    * @return a pair (min, max) - the minimum and maximum value across
    *          the whole dataset before being normalized.
    */
-  std::pair<data_t, data_t> normalize();
+  virtual std::pair<data_t, data_t> normalize();
 
   /**
   *  @brief check if the dataset is normalized
   */
   bool isNormalized() { return normalized; }
 
-  void PAA(int n);
+  virtual void PAA(int n);
 
   /**
     *  @brief calculates the distance between a subsequence of a series in this dataset to
-- 
2.43.0


From f998881b80bb96c0739ba479e73d6ef9af12dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 08/40] fix: do not divide by zero when reporting progress on
 fewer than five time series

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..98fc045 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(1, totalTimeSeries / LOG_FREQ) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 491a39e69b29ca0a426356170df75e55686e78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 09/40] fix: only search lengths that exist in the dataset and
 fail cleanly when nothing is comparable

---
 src/GlobalGroupSpace.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..5a105e0 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -76,6 +76,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("Cannot find any time series comparable to the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +123,7 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) order.push_back(queryLength);
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +132,7 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) order.push_back(low);
         low--;
       }
       else {
-- 
2.43.0


From db986c9ea78e4b5a74803d5742c352207ea33ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 10/40] fix: keep the first row and column of the warping
 matrix inside the band

---
 src/distance/Distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..0e92d67 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -75,13 +75,13 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
   cost[0][0] = _euc(a[0], b[0]);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = cost[i-1][0] + _euc(a[i], b[0]);
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = cost[0][j-1] + _euc(a[0], b[j]);
   }
-- 
2.43.0


From e25dd6acd216aca9563a8a8ca72808701a63636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 11/40] fix: refuse incomplete or corrupted group files and
 keep the current groups when loading fails

---
 src/GlobalGroupSpace.cpp       |  7 +++++--
 src/Group.cpp                  | 12 ++++++++++--
 src/Group.hpp                  |  9 ++++++++-
 src/GroupableTimeSeriesSet.cpp | 12 ++++++++----
 src/LocalLengthGroupSpace.cpp  | 14 +++++++++++---
 5 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5a105e0..eac4d3b 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -104,14 +104,17 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int lenFrom, lenTo;
   int numberOfGroups = 0;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance)
+      || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+    throw OnexException("Invalid range of lengths in the group file");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
     LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
     this->localLengthGroupSpace[i] = gel;
+    numberOfGroups += gel->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..d8fc221 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "distance/Distance.hpp"
 
 using std::vector;
@@ -109,10 +110,17 @@ void Group::loadGroup(ifstream &fin)
     fin >> this->centroid[i];
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt) || cnt <= 0) {
+    throw OnexException("Group file is incomplete or corrupted");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start)
+        || index < 0 || index >= this->dataset.getItemCount()
+        || start < 0 || start >= this->subTimeSeriesCount
+        || this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw OnexException("Group file is incomplete or corrupted");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..f67a83e 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -141,6 +141,13 @@ public:
   std::vector<TimeSeries> getMembers() const;
 
   void saveGroup(std::ofstream &fout) const;
+
+  /**
+   *  @brief reads the representative and the members of this group
+   *
+   *  @throw OnexException if the description is incomplete, is empty, has a member that is not
+   *         in the dataset or a member that is already in a group
+   */
   void loadGroup(std::ifstream &fin);
 
 private:
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 59cb2e6..d2c3ced 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <memory>
 
 using std::ofstream;
 using std::ifstream;
@@ -92,8 +93,8 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   ifstream fin(path);
   if (fin)
   {
-    int version, grpItemCount, grpItemLength;
-    data_t threshold;
+    int version = 0, grpItemCount = 0, grpItemLength = 0;
+    data_t threshold = 0;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
     if (version != GROUP_FILE_VERSION)
     {
@@ -108,10 +109,13 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> loaded(new GlobalGroupSpace(*this));
+    numberOfGroups = loaded->loadGroups(fin);
+
+    // replace the old groups only after all new groups are loaded
     reset();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
+    this->groupsAllLengthSet = loaded.release();
   }
   else
   {
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 98fc045..704f59c 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -137,13 +137,21 @@ void LocalLengthGroupSpace::saveGroups(ofstream &fout, bool groupSizeOnly) const
 int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
+  this->memberMap.assign(this->memberMap.size(), group_membership_t());
   int numberOfGroups;
-  fin >> numberOfGroups;
-  for (unsigned int i = 0; i < numberOfGroups; i++)
+  unsigned int numberOfMembers = 0;
+  if (!(fin >> numberOfGroups)) {
+    throw OnexException("Group file is incomplete or corrupted");
+  }
+  for (int i = 0; i < numberOfGroups; i++)
   {
     Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
     this->groups.push_back(grp);
+    grp->loadGroup(fin);
+    numberOfMembers += grp->getCount();
+  }
+  if (numberOfMembers != this->memberMap.size()) {
+    throw OnexException("Group file does not cover the dataset");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 95bf715233a9c49d6c2641e91230769e648db141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 12/40] fix: keep the current groups when grouping by an
 unknown distance

---
 src/GroupableTimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index d2c3ced..47cb50e 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -26,6 +26,8 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
     throw OnexException("No data to group");
   }
 
+  getDistance(distance_name); // fail on an unknown distance before touching the old groups
+
   // clear old groups
   reset();
 
-- 
2.43.0


From 48ec7e77662260f5b2b54be09f4dae13d7afd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 13/40] fix: save datasets and groups with enough digits to
 restore the exact values

---
 src/GroupableTimeSeriesSet.cpp | 3 +++
 src/TimeSeries.cpp             | 2 +-
 src/TimeSeriesSet.cpp          | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 47cb50e..6dd30a8 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <iostream>
 
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <memory>
 
 using std::ofstream;
@@ -77,6 +79,7 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10);
     fout << GROUP_FILE_VERSION << " " 
          << this->threshold << " "
          << this->getItemCount() << " "
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 5a58ac5..5aa395f 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -144,7 +144,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d5dbc77..8c76b3b 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -4,6 +4,8 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <iomanip>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -183,6 +185,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From 268abc30a1120b4b3a5a0132a7d68be93dd9465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 14/40] fix: report datasets and groups that could not be
 written completely

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 src/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 6dd30a8..96c3e75 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -85,6 +85,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException(string("Error while writing ") + path);
+    }
   }
   else
   {
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 8c76b3b..52699cd 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -193,6 +193,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 314ccea728be568966772c7212ccf6fcb422a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 15/40] fix: refuse negative warping band ratios and bound
 large ones

---
 src/distance/Distance.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 0e92d67..a0670e0 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -126,7 +126,11 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
-  warpingBandRatio = ratio;
+  if (!(ratio >= 0)) {
+    throw OnexException("Warping band ratio must not be negative");
+  }
+  // the band is never wider than the time series
+  warpingBandRatio = min(ratio, 1.0);
 }
 
 int calculateWarpingBandSize(int length)
-- 
2.43.0


From bebf5eb8bc9a255e041393a148ea74262cf1a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 16/40] fix: require both start and end of the query in the
 match command

---
 cli/OnexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..0ac4138 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -369,7 +369,7 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    if (tooFewArgs(args, args.size() > 4 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From cee584ab520570e425ba6f819085c16b9eb67d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 17/40] fix: release lines read by readline with free

---
 cli/OnexCLI.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 0ac4138..458b655 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -536,14 +537,16 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
+      free(raw_line);
       return true;
     }
   }
   while (strcmp(raw_line, "n") != 0);
+  free(raw_line);
   return false;
 }
 
@@ -573,7 +576,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 44297b84068849c7070aac5c2fdcd140dd302ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:32 +0000
Subject: [PATCH 18/40] fix: start a new group when no representative is at a
 finite distance

---
 src/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 704f59c..558ae34 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
@@ -85,7 +85,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFar > threshold / 2 || bestSoFarIndex < 0)
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-- 
2.43.0


From c2daed7a7e7c6356d67bd9d8cef5013c837e63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:32 +0000
Subject: [PATCH 19/40] fix: treat cells outside the warping band as
 unreachable when costs overflow

---
 src/distance/Distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index a0670e0..001c558 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -67,7 +67,7 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
   }
 
   // create cost matrix
-  vector< vector< data_t >> cost(m, vector< data_t >(n));
+  vector< vector< data_t >> cost(m, vector< data_t >(n, INF));
 
   // Preset this in case this cell is never reached due to the warping
   // band constraint
-- 
2.43.0


From 8e52e57600ba7e4ca3b5e898064a5b7dbce6876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:32 +0000
Subject: [PATCH 20/40] fix: refuse surplus arguments to the unload command

---
 cli/OnexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 458b655..8c760be 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -142,7 +142,7 @@ MAKE_COMMAND(SaveDataset,
 
 MAKE_COMMAND(UnloadDataset,
   {
-    if (tooFewArgs(args, 2) || tooManyArgs(args, 5))
+    if (tooFewArgs(args, 2) || tooManyArgs(args, 2))
     {
       return false;
     }
-- 
2.43.0


From b054c93b7fe563e3f5b5eb9948ed71f46cd3d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 21/40] fix: do not count points twice in the constant-time
 bound for very short queries

---
 src/lib/trillionDTW.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index b90a9f2..880e183 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -75,7 +75,8 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     data_t x0 = (t[j] - mean) / std;
     data_t y0 = (t[(len-1+j)] - mean) / std;
     lb = dist(x0,q[0]) + dist(y0,q[len-1]);
-    if (lb >= bsf)   return lb;
+    /// The three points at the front and the three at the back must be distinct
+    if (lb >= bsf || len < 6)   return lb;
 
     /// 2 points at front
     data_t x1 = (t[(j+1)] - mean) / std;
-- 
2.43.0


From 0942fd51f0eecbef228014d3e19518d8efd64244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 22/40] fix: release the read buffer and the query order after
 the bundled search

---
 src/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index 880e183..305747c 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -544,6 +544,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(uo);
     free(lo);
     free(qo);
+    free(order);
     free(cb);
     free(cb1);
     free(cb2);
@@ -551,6 +552,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(t);
     free(l_d);
     free(u_d);
+    free(buffer);
     free(l_buff);
     free(u_buff);
 
-- 
2.43.0


From e140edfe3064dcabd76c0c3d4765342cbf251169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 23/40] fix: order query points without converting their
 difference to int

---
 src/lib/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/util.cpp b/src/lib/util.cpp
index 7eb183b..ec39df1 100644
--- a/src/lib/util.cpp
+++ b/src/lib/util.cpp
@@ -45,5 +45,6 @@ int Index::comp(const void *a, const void* b)
 }
 int Index::diff(Index &other)
 {
-    return std::abs(other.value) - std::abs(value);
+    data_t a = std::abs(value), b = std::abs(other.value);
+    return (b > a) - (b < a);
 }
-- 
2.43.0


From edb48c175112a2ef86f50f3ebec62ce0be116273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 24/40] fix: load values below the smallest normal number,
 which saveData writes

---
 src/TimeSeriesSet.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 52699cd..43b6923 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -6,6 +6,8 @@
 #include <iostream>
 #include <iomanip>
 #include <limits>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -152,9 +154,15 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           }
           catch (const std::out_of_range& e)
           {
-            f.close();
-            this->clearData();
-            throw OnexException("Values are out of range");
+            // stod also rejects numbers so small that they lose precision, which are fine
+            data_t value = (data_t)std::strtod(tok_iter->c_str(), nullptr);
+            if (value == 0 || std::isinf(value))
+            {
+              f.close();
+              this->clearData();
+              throw OnexException("Values are out of range");
+            }
+            data[row * (length - startCol) + (col - startCol)] = value;
           }
         }
       }
-- 
2.43.0


From ed9f861ae54f66ba96f477bf0ddef05929104ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 25/40] fix: normalize datasets whose range overflows

---
 src/TimeSeriesSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 43b6923..1cf24eb 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -306,12 +306,16 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
   }
   else
   {
+    // halving is exact and keeps a range beyond the largest number finite
+    data_t scale = std::isinf(diff) ? 0.5 : 1;
+    diff = MAX * scale - MIN * scale;
+
     // normalize
     for (int ts = 0; ts < this->itemCount; ts++)
     {
       for (i = 0; i < this->itemLength; i++)
       {
-        data[ts * this->itemLength + i] = (data[ts * this->itemLength + i] - MIN)/ diff;
+        data[ts * this->itemLength + i] = (data[ts * this->itemLength + i] * scale - MIN * scale)/ diff;
       }
     }
   }
-- 
2.43.0


From 0ac5f12816e3b4fb6498072ca06a26d76ba36430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 26/40] fix: average blocks whose sum overflows

---
 src/TimeSeriesSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 1cf24eb..9f8ab07 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -40,7 +40,7 @@ inline int calcPAALength(int srcLength, int n)
 
 void doPAA(const data_t* source, data_t* dest, int srcLength, int n)
 {
-  data_t sum = 0;
+  long double sum = 0; // values near the largest number must not overflow
   int count = 0;
   int destLength = calcPAALength(srcLength, n);
   for (int i = 0; i < srcLength; i++)
@@ -57,7 +57,7 @@ void doPAA(const data_t* source, data_t* dest, int srcLength, int n)
 
 TimeSeries tsPAA(const TimeSeries& source, int n)
 {
-  data_t sum = 0;
+  long double sum = 0; // values near the largest number must not overflow
   int count = 0;
   int srcLength = source.getLength();
   int destLength = calcPAALength(srcLength, n);
-- 
2.43.0


From 171048a944f2edc236614147cc1ffe20b21c70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 27/40] fix: distanceBetween refuses negative and overflowing
 ranges

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 9f8ab07..ddfaa63 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -349,6 +349,10 @@ data_t TimeSeriesSet::distanceBetween(int idx, int start, int length,
     const TimeSeries& other, const std::string& distance_name)
 {
   const dist_t distance = getDistance(distance_name);
+  if (start < 0 || length <= 0 || length > this->itemLength - start)
+  {
+    throw OnexException("Invalid starting position or length of a time series");
+  }
   return distance(this->getTimeSeries(idx, start, start + length), other, INF);
 }
 
-- 
2.43.0


From 3cf2437dab1163725f79a224c23d7cac390d53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:12 +0000
Subject: [PATCH 28/40] fix: do not size a dataset from its first line before
 the other lines are known to match

A small file with a long first line and many short ones made rows*columns overflow.
---
 src/TimeSeriesSet.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index ddfaa63..67c72d8 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 #include <boost/tokenizer.hpp>
 
 #include "distance/Distance.hpp"
@@ -101,6 +102,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
   }
 
   int length = -1;
+  std::vector<data_t> values;
   string line;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
@@ -124,9 +126,6 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           f.close();
           throw OnexException("No column to read from the given starting column");
         }
-        this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
-
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
       {
@@ -144,7 +143,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter);
+            values.push_back((data_t)std::stod(*tok_iter));
           }
           catch (const std::invalid_argument& e)
           {
@@ -162,7 +161,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
               this->clearData();
               throw OnexException("Values are out of range");
             }
-            data[row * (length - startCol) + (col - startCol)] = value;
+            values.push_back(value);
           }
         }
       }
@@ -179,6 +178,8 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  this->data = new data_t[values.size()];
+  std::copy(values.begin(), values.end(), this->data);
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 1413deda062abfbc84e7539ea81de0afa10bd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:32 +0000
Subject: [PATCH 29/40] fix: refuse a dataset file whose lines cannot be read
 again after counting them

A pipe was reported as loaded, with no series of length -1.
---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 67c72d8..00d399b 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -171,7 +171,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     }
   }
 
-  if (f.bad())
+  if (f.bad() || this->itemCount < maxNumRow)
   {
     f.close();
     this->clearData();
-- 
2.43.0


From cce4c5eac3d455a70fac4913953915d67b959219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:18 +0000
Subject: [PATCH 30/40] fix: refuse to aggregate a dataset that holds no data

It became a loaded dataset of no series of length 1.
---
 src/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 00d399b..90cb0c2 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -329,6 +329,9 @@ void TimeSeriesSet::PAA(int n)
   if (n <= 0) {
     throw OnexException("Block size must be positive");
   }
+  if (!this->isLoaded()) {
+    throw OnexException("No data to aggregate");
+  }
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
-- 
2.43.0


From 1949c90a93340bfc233ff963439d579742993835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:12 +0000
Subject: [PATCH 31/40] fix: load group files whose threshold is infinite or
 not a number

saveGroups writes such a threshold, operator>> does not read it back.
---
 src/GroupableTimeSeriesSet.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96c3e75..9e69fd0 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -4,6 +4,8 @@
 #include "distance/Distance.hpp"
 #include <iostream>
 
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <limits>
@@ -104,8 +106,8 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   if (fin)
   {
     int version = 0, grpItemCount = 0, grpItemLength = 0;
-    data_t threshold = 0;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    string thresholdText;
+    fin >> version >> thresholdText >> grpItemCount >> grpItemLength;
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
@@ -118,6 +120,13 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
     {
       throw OnexException("Incompatible item length");
     }
+    // unlike operator>>, strtod reads every threshold that can be saved, such as inf
+    char* rest = nullptr;
+    data_t threshold = (data_t)std::strtod(thresholdText.c_str(), &rest);
+    if (*rest != '\0' || (std::isinf(threshold) && thresholdText.find_first_of("0123456789") != string::npos))
+    {
+      throw OnexException("Invalid threshold");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     std::unique_ptr<GlobalGroupSpace> loaded(new GlobalGroupSpace(*this));
     numberOfGroups = loaded->loadGroups(fin);
-- 
2.43.0


From 93563a3de6a54471688e5c33b7f58747411cdc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:12 +0000
Subject: [PATCH 32/40] fix: grouping progress overflowed beyond 21 million
 subsequences of one length

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 558ae34..cdb1d9b 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -66,7 +66,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       if (doLog) {
         if (counter % std::max(1, totalTimeSeries / LOG_FREQ) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
-               << " (" << counter*100/totalTimeSeries << "%)" << endl;
+               << " (" << counter*100LL/totalTimeSeries << "%)" << endl;
         }
       }
 
-- 
2.43.0


From 66a78d72474cbdbc3f2ee316798f19551533407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:38 +0000
Subject: [PATCH 33/40] fix: refuse to load groups into a dataset object that
 holds no data

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 9e69fd0..0cfeb0d 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -101,6 +101,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
 
 int GroupableTimeSeriesSet::loadGroups(const string& path)
 {
+  if (!this->isLoaded())
+  {
+    throw OnexException("No data to load groups for");
+  }
+
   int numberOfGroups = 0;
   ifstream fin(path);
   if (fin)
-- 
2.43.0


From 2b0cafe26b8b74bc86ea6e16babe1688fe48c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:57 +0000
Subject: [PATCH 34/40] fix: refuse to save a dataset object that holds no data

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 90cb0c2..e7fd00b 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -188,6 +188,10 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
 
 void TimeSeriesSet::saveData(const string& filePath, char separator) const
 {
+  if (this->data == nullptr)
+  {
+    throw OnexException("No data to save");
+  }
   std::ofstream f(filePath);
   if (!f.is_open())
   {
-- 
2.43.0


From 1bcf7ed845e2cf2bd2a8ed579a4390d9be132e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:57 +0000
Subject: [PATCH 35/40] fix: a moved-from time series kept its length without
 its points

---
 src/TimeSeries.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 5aa395f..eb1ffb1 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -53,6 +53,9 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   length = other.length;
   isOwnerOfData = other.isOwnerOfData;
   other.data = nullptr;
+  // without points the other one must not claim to have any
+  other.start = other.end = other.length = 0;
+  other.keoghCacheValid = false;
   return *this;
 }
 
-- 
2.43.0


From b935c438cd775cc39bcb040c12f1cc0c6de5c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:14 +0000
Subject: [PATCH 36/40] fix: envelopes did not follow points written through
 operator[] or a viewed array

---
 src/TimeSeries.cpp | 12 ++++++++++--
 src/TimeSeries.hpp |  7 +++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index eb1ffb1..e8b7027 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -95,9 +95,16 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
   return *this;
 }
 
+bool TimeSeries::isKeoghCacheCurrent(int warpingBand) const
+{
+  // the points can be written to without this object knowing
+  return keoghCacheValid && warpingBand == cachedWarpingBand
+    && memcmp(keoghPoints.data(), this->data + this->start, this->length * sizeof(data_t)) == 0;
+}
+
 const data_t* TimeSeries::getKeoghLower(int warpingBand) const
 {
-  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {
+  if (!this->isKeoghCacheCurrent(warpingBand)) {
     this->generateKeoghLU(warpingBand);
     cachedWarpingBand = warpingBand;
   }
@@ -106,7 +113,7 @@ const data_t* TimeSeries::getKeoghLower(int warpingBand) const
 
 const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 {
-  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {
+  if (!this->isKeoghCacheCurrent(warpingBand)) {
     this->generateKeoghLU(warpingBand);
     cachedWarpingBand = warpingBand;
   }
@@ -129,6 +136,7 @@ void TimeSeries::generateKeoghLU(int warpingBand) const
   lower_upper_lemire(this->data + this->start, this->length, warpingBand,
                      this->keoghLower, this->keoghUpper);
 
+  keoghPoints.assign(this->data + this->start, this->data + this->start + this->length);
   keoghCacheValid = true;
 }
 
diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 3ec8b97..05a3992 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <vector>
 
 #define INF std::numeric_limits<data_t>::infinity()
 #define EPS 1e-12
@@ -183,6 +184,12 @@ private:
   mutable data_t* keoghLower = nullptr;
   mutable data_t* keoghUpper = nullptr;
   mutable double cachedWarpingBand;
+  mutable std::vector<data_t> keoghPoints; // the points the envelope was computed from
+
+  /**
+   * @brief checks if the envelope was computed with the given band from the present points
+   */
+  bool isKeoghCacheCurrent(int warpingBand) const;
 
   /**
    * @brief generates the upper and lower envelope used in Keogh lower bound calculation
-- 
2.43.0


From 76ea345e49123bda76e097536306e89754ecf954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:07 +0000
Subject: [PATCH 37/40] fix: distances and envelopes of a time series without
 points read out of bounds

---
 src/TimeSeries.cpp        | 12 ++++++++----
 src/distance/Distance.cpp |  8 ++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index e8b7027..e2c5060 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -99,7 +99,8 @@ bool TimeSeries::isKeoghCacheCurrent(int warpingBand) const
 {
   // the points can be written to without this object knowing
   return keoghCacheValid && warpingBand == cachedWarpingBand
-    && memcmp(keoghPoints.data(), this->data + this->start, this->length * sizeof(data_t)) == 0;
+    && (this->length == 0
+        || memcmp(keoghPoints.data(), this->data + this->start, this->length * sizeof(data_t)) == 0);
 }
 
 const data_t* TimeSeries::getKeoghLower(int warpingBand) const
@@ -130,14 +131,17 @@ void TimeSeries::generateKeoghLU(int warpingBand) const
   keoghLower = new data_t[this->length];
   keoghUpper = new data_t[this->length];
 
+  keoghPoints.assign(this->data + this->start, this->data + this->start + this->length);
+  keoghCacheValid = true;
+  if (this->length == 0) {
+    return;
+  }
+
   warpingBand = min(warpingBand, this->length - 1);
 
   // Function provided by trillionDTW codebase. See README
   lower_upper_lemire(this->data + this->start, this->length, warpingBand,
                      this->keoghLower, this->keoghUpper);
-
-  keoghPoints.assign(this->data + this->start, this->data + this->start + this->length);
-  keoghCacheValid = true;
 }
 
 const data_t* TimeSeries::getData() const
diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 001c558..c6df9cc 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -57,6 +57,10 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
 {
   int m = a.getLength();
   int n = b.getLength();
+  if (m == 0 || n == 0)
+  {
+    throw OnexException("Warped distance is not defined for a time series without points");
+  }
   int r = calculateWarpingBandSize(max(m, n));
   data_t idropout = _euc_inorm_dtw(dropout, a, b);
 
@@ -252,6 +256,10 @@ data_t pairwiseDistance(const TimeSeries& x_1, const TimeSeries& x_2, data_t dro
   {
     throw OnexException("Two time series must have the same length for pairwise distance");
   }
+  if (x_1.getLength() == 0)
+  {
+    throw OnexException("Pairwise distance is not defined for time series without points");
+  }
 
   data_t total = 0;
 
-- 
2.43.0


From cb1153f98199bf44667bca1148a50514cf16f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:44 +0000
Subject: [PATCH 38/40] fix: copying a moved-from time series handed a null
 pointer to memcpy

---
 src/TimeSeries.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index e2c5060..aa4b8a1 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -55,6 +55,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   other.data = nullptr;
   // without points the other one must not claim to have any
   other.start = other.end = other.length = 0;
+  other.isOwnerOfData = false;
   other.keoghCacheValid = false;
   return *this;
 }
-- 
2.43.0


From d48e8b63e3790525ef7d948ae1a68f432069c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 39/40] fix: the bundled search overflowed its buffers for
 queries longer than a chunk and for bands wider than the query

---
 src/lib/trillionDTW.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index 305747c..fb50df3 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -264,8 +264,15 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     data_t *buffer, *u_buff, *l_buff;
     Index *Q_tmp;
 
-    int EPOCH = 100000;
     m=queryLength;
+    if( m < 1 || r < 0 )
+        error(4);
+
+    /// A warping band wider than the query is the same as one as wide as the query
+    r = min(r, m-1);
+
+    /// A chunk must have room for more than one subsequence
+    int EPOCH = max(100000, 2*m);
 
     t1 = clock();
     fp = fopen(dataPath,"r");
@@ -435,7 +442,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         {   lower_upper_lemire(buffer, ep, r, l_buff, u_buff);
 
             /// Just for printing a dot for approximate a million point. Not much accurate.
-            if (it%(1000000/(EPOCH-m+1))==0)
+            if (it%max(1,1000000/(EPOCH-m+1))==0)
                 fprintf(stderr,".");
 
             /// Do main task here..
-- 
2.43.0


From c009dfc829084d2ee7adb7e0ab4845133cb9653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:42 +0000
Subject: [PATCH 40/40] fix: the bundled search used points it could not read:
 endless on text, uninitialised on short files, overflow in single precision

---
 src/lib/trillionDTW.cpp | 26 ++++++++++++++++++++++----
 src/lib/util.cpp        |  3 +++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index fb50df3..6224c70 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -242,6 +242,19 @@ data_t dtw(data_t* A, data_t* B, data_t *cb, int m, int r, data_t bsf)
     return final_dtw;
 }
 
+/// Read the next point of a file
+/// Returns false at the end of the file. Text that is not a number cannot be skipped.
+static bool readPoint(FILE *f, data_t &point)
+{
+    double value;
+    int found = fscanf(f, "%lf", &value);
+    if (found == 0)
+        error(5);
+    if (found == 1)
+        point = value;
+    return found == 1;
+}
+
 /// Main Calculation Function
 int calculate(const char *dataPath, const char *queryPath, int queryLength, int r)
 {
@@ -359,7 +372,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     j = 0;
     ex = ex2 = 0;
 
-    while(fscanf(qp,"%lf",&d) != EOF && i < m)
+    while(i < m && readPoint(qp, d))
     {
         ex += d;
         ex2 += d*d;
@@ -367,6 +380,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         i++;
     }
     fclose(qp);
+    if (i < m)
+        error(5);
 
     /// Do z-normalize the query, keep in same array, q
     mean = ex/m;
@@ -417,8 +432,11 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         ep=0;
         if (it==0)
         {   for(k=0; k<m-1; k++)
-                if (fscanf(fp,"%lf",&d) != EOF)
-                    buffer[k] = d;
+            {
+                if (!readPoint(fp, d))
+                    error(5);
+                buffer[k] = d;
+            }
         }
         else
         {   for(k=0; k<m-1; k++)
@@ -428,7 +446,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         /// Read buffer of size EPOCH or when all data has been read.
         ep=m-1;
         while(ep<EPOCH)
-        {   if (fscanf(fp,"%lf",&d) == EOF)
+        {   if (!readPoint(fp, d))
                 break;
             buffer[ep] = d;
             ep++;
diff --git a/src/lib/util.cpp b/src/lib/util.cpp
index ec39df1..6c053c5 100644
--- a/src/lib/util.cpp
+++ b/src/lib/util.cpp
@@ -31,6 +31,9 @@ void error(int id)
         printf("Command Usage:  UCR_DTW.exe  data-file  query-file   m   R\n\n");
         printf("For example  :  UCR_DTW.exe  data.txt   query.txt   128  0.05\n");
 	break;
+    case 5:
+        printf("ERROR : File has too few points or is not a list of numbers!!!\n\n");
+	break;
     }
 
     exit(EXIT_FAILURE);
-- 
2.43.0


From 2f6b5811516fc237f9fde71d0479288537e3a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/54] fix: accumulate the bias update in SGD instead of
 overwriting the bias

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From 6b340c294ea0e69f4725b1162204030df40da794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/54] fix: train a convolution in first position on the
 errors of all its kernel positions

---
 src/neural_network/layer/Convolution1D.cpp | 5 +++--
 src/neural_network/layer/Convolution2D.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..c67c9c8 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,9 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (auto& neuron : this->neurons)
+            neuron.train(inputErrors[i++]);
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..c4b85c0 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,9 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (auto& neuron : this->neurons)
+            neuron.train(inputErrors[i++]);
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From 036e9e8f3ed61464fa894845128fb980ce0100ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 03/54] fix: use the pre-activation of each kernel position in
 the gradient of convolutions

---
 include/snn/neural_network/layer/neuron/SimpleNeuron.hpp | 3 +++
 src/neural_network/layer/neuron/SimpleNeuron.cpp         | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
index c152c83..f2bd720 100644
--- a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
+++ b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
@@ -13,6 +13,8 @@ namespace snn::internal
         template <class Archive>
         void serialize(Archive& ar, unsigned version);
 
+        CircularData lastSums;
+
     public:
         SimpleNeuron() = default; // use restricted to Boost library only
         SimpleNeuron(NeuronModel model, std::shared_ptr<NeuralNetworkOptimizer> optimizer);
@@ -35,5 +37,6 @@ namespace snn::internal
     {
         boost::serialization::void_cast_register<SimpleNeuron, Neuron>();
         ar & boost::serialization::base_object<Neuron>(*this);
+        ar & this->lastSums;
     }
 }
diff --git a/src/neural_network/layer/neuron/SimpleNeuron.cpp b/src/neural_network/layer/neuron/SimpleNeuron.cpp
index a75561d..154215e 100644
--- a/src/neural_network/layer/neuron/SimpleNeuron.cpp
+++ b/src/neural_network/layer/neuron/SimpleNeuron.cpp
@@ -8,6 +8,7 @@ using namespace internal;
 SimpleNeuron::SimpleNeuron(NeuronModel model, shared_ptr<NeuralNetworkOptimizer> optimizer)
     : Neuron(model, optimizer)
 {
+    this->lastSums.initialize(this->batchSize, 1);
 }
 
 float SimpleNeuron::output(const vector<float>& inputs)
@@ -22,12 +23,13 @@ float SimpleNeuron::output(const vector<float>& inputs)
         tmp += inputs[w] * this->weights[w];
     }
     this->sum = tmp + this->weights[w] * bias;
+    this->lastSums.pushBack({this->sum});
     return this->outputFunction->function(this->sum);
 }
 
 vector<float>& SimpleNeuron::backOutput(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->lastSums.getBack()->front());
     assert(this->weights.size() == this->errors.size() + 1);
     #pragma omp simd // seems to do nothing
     for (size_t w = 0; w < this->errors.size(); ++w)
@@ -40,7 +42,7 @@ vector<float>& SimpleNeuron::backOutput(float error)
 
 void SimpleNeuron::train(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->lastSums.getBack()->front());
     this->optimizer->updateWeights(*this, error);
 }
 
@@ -51,7 +53,8 @@ int SimpleNeuron::isValid() const
 
 bool SimpleNeuron::operator==(const SimpleNeuron& neuron) const
 {
-    return this->Neuron::operator==(neuron);
+    return this->Neuron::operator==(neuron)
+        && this->lastSums == neuron.lastSums;
 }
 
 bool SimpleNeuron::operator!=(const SimpleNeuron& neuron) const
-- 
2.43.0


From 4491a547f0f8b1d7c0f9d6e8dac1f2100eee6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 04/54] fix: count every channel in the number of outputs of a
 1D max pooling layer

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From bafe659f1ec791667d8867e0d20e631c3adbc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 05/54] fix: compute the row of a 2D max pooling kernel from
 the output width

---
 src/neural_network/layer/MaxPooling2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 1b29f97c9a76e0ee7178de549180ae8a3e20082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 06/54] fix: compute the row of a 2D locally connected kernel
 from the output width

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From a8049803ea939529c23e1a4f09fac0932a682f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 07/54] fix: count the outputs of the last layer instead of its
 neurons

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..62e7cfe 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From 1769a9b93c1d04c0a3c4ee26b0c44d165b9a734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 08/54] fix: apply dropout to every output of a layer, not only
 one per neuron

---
 src/neural_network/optimizer/Dropout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..a36fedb 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,10 +36,13 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    if (temporalReset || this->presenceProbabilities.size() != outputs.size())
+    {
+        this->presenceProbabilities.resize(outputs.size());
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
+    }
     ranges::transform(outputs, this->presenceProbabilities, outputs.begin(), multiplies<float>());
 }
 
-- 
2.43.0


From 4515c3c308484c08d6a45d426502e58b4178abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 09/54] fix: reject filter layers without filter or with an
 empty kernel instead of dividing by zero

---
 src/neural_network/layer/LayerFactory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..94966e0 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -93,6 +93,14 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
     if (model.numberOfInputs > 1000000)
         throw InvalidArchitectureException("Layer is too big.");
 
+    if (model.type == maxPooling || model.type == locallyConnected || model.type == convolution)
+    {
+        if (model.kernelSize < 1)
+            throw InvalidArchitectureException("Kernel of layer has size of 0.");
+        if (model.numberOfFilters < 1)
+            throw InvalidArchitectureException("Layer has no filter.");
+    }
+
     switch (model.type)
     {
     case fullyConnected:
-- 
2.43.0


From 7d0d5ea16bfcd947f7d6261d1a4aefb51923a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 10/54] fix: reject input shapes whose size overflows or is not
 positive

---
 src/neural_network/layer/LayerFactory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 94966e0..f14462e 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -270,11 +270,15 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : models[0].shapeOfInput)
+    {
+        if (size < 1)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
         numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
+        if (numberOfInputs > 2073600)
+            throw InvalidArchitectureException("Layer is too big.");
+    }
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
-- 
2.43.0


From 58e0533e752f61bf9265c8579a6ca414769d48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 11/54] fix: shuffle the sequences of sequential data

---
 src/data/CompositeForTemporalData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index f5f1570..dc5ae87 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i > this->sets[training].size; ++i)
+    for (int i = 0; i < this->sets[training].size; ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
@@ -27,7 +27,7 @@ void CompositeForTemporalData::shuffle()
         this->sets[training].shuffledIndexes[j++] = this->indexesForShuffles[i];
 
         int index = this->indexesForShuffles[i] + 1;
-        while (!this->sets[training].areFirstDataOfTemporalSequence[index])
+        while (index < this->sets[training].size && !this->sets[training].areFirstDataOfTemporalSequence[index])
         {
             this->sets[training].shuffledIndexes[j++] = index++;
         }
@@ -41,7 +41,7 @@ void CompositeForTemporalData::unshuffle()
 
 bool CompositeForTemporalData::isFirstTrainingDataOfTemporalSequence(int index) const
 {
-    return this->sets[training].areFirstDataOfTemporalSequence[index];
+    return this->sets[training].areFirstDataOfTemporalSequence[this->sets[training].shuffledIndexes[index]];
 }
 
 bool CompositeForTemporalData::isFirstTestingDataOfTemporalSequence(int index) const
-- 
2.43.0


From bfee1275b73eecc8d15f886cd7a58f48fa73cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 12/54] fix: keep the shuffle of short time series inside the
 training set

---
 src/data/CompositeForTimeSeries.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..813055a 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,12 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
+    for (int i = max(0, this->sets[training].size - (this->numberOfRecurrences + 1)); i < this->sets[training].size; ++i)
     {
         this->sets[training].needToTrainOnData[i] = false;
     }
 
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < min(offset, this->sets[training].size); ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
-- 
2.43.0


From 03b02ae5ed868ec8752c289051a17bcfb3fb2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 13/54] fix: return the training label of the shuffled data in
 getTrainingLabel

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..5a98d79 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& label = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)label.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (label[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From f7bc8d69d781916d10854c528dec09299bf8f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 14/54] fix: reject data whose numbers of inputs and labels
 differ

---
 src/data/Data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..02d1aec 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -273,9 +273,9 @@ int Data::isValid()
         return 403;
 
     if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
+        || this->sets[training].size != (int)this->sets[training].labels.size()
+        || this->sets[testing].size != (int)this->sets[testing].inputs.size()
+        || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
     int err = this->problemComposite->isValid();
-- 
2.43.0


From f4cd0127e13d152c1241d52bd887a5b114089c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 15/54] fix: reject empty training data and empty temporal
 sequences

---
 src/data/Data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 02d1aec..b1afd24 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Training data is empty.");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -171,6 +174,8 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("Temporal sequence is empty.");
         ranges::move(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
@@ -198,6 +203,8 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("Temporal sequence is empty.");
         ranges::move(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
-- 
2.43.0


From ae00e961a4572a71f91e42e772709935bafdb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 16/54] fix: reject data whose inputs or labels do not all have
 the same size

---
 src/data/Data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index b1afd24..50449e3 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -285,6 +285,11 @@ int Data::isValid()
         || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
+    for (const auto& set : this->sets)
+        if (ranges::any_of(set.inputs, [this](const auto& input) { return (int)input.size() != this->sizeOfData; })
+            || ranges::any_of(set.labels, [this](const auto& label) { return (int)label.size() != this->numberOfLabels; }))
+            return 407;
+
     int err = this->problemComposite->isValid();
     if (err != 0)
         return err;
-- 
2.43.0


From e779271ae15edf971609f7bb778525d1e96ba66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 17/54] fix: do not truncate errors to integers in the mean
 absolute error

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..ae1ab67 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -105,7 +105,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +139,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +161,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +174,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
-- 
2.43.0


From ba130fbb1c27f749f65c4d0b120fb8866a298bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 18/54] fix: keep the best F1 score and the best root mean
 squared error

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index ae1ab67..cd6d3c0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 7df58a06a1041242c6c685b80964b5f4ca72bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 19/54] fix: compute the root mean squared error from the
 squared errors of each data

---
 include/snn/neural_network/StatisticAnalysis.hpp |  1 +
 src/neural_network/StatisticAnalysis.cpp         | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..d507b12 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -11,6 +11,7 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index cd6d3c0..aedabc3 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -105,7 +107,9 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        const float error = desiredOutputs[i] - outputs[i];
+        clusters[i].totalError += std::abs(error);
+        clusters[i].totalSquaredError += error * error;
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +143,9 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        const float error = desiredOutputs[i] - outputs[i];
+        clusters[i].totalError += std::abs(error);
+        clusters[i].totalSquaredError += error * error;
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -162,6 +168,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         if (i == classNumber)
         {
             clusters[i].totalError += std::abs(1 - outputs[i]);
+            clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -175,6 +182,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         else
         {
             clusters[i].totalError += std::abs(0 - outputs[i]);
+            clusters[i].totalSquaredError += outputs[i] * outputs[i];
 
             if (outputs[i] > separator)
             {
@@ -238,7 +246,7 @@ float StatisticAnalysis::computeRootMeanSquaredError() const
     float totalError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalError += c.totalSquaredError;
     }
     const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
-- 
2.43.0


From f8b78cef512250e8ca86c2f21ee4198907c1a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 20/54] fix: find the cluster of outputs lower than -2

---
 src/neural_network/StatisticAnalysis.cpp            | 3 ++-
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index aedabc3..0c148dd 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 #include "StatisticAnalysis.hpp"
 
 using namespace snn;
@@ -155,7 +156,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
+    float maxOutputValue = std::numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
 
     for (int i = 0; i < (int)clusters.size(); i++)
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..aa5007c 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <limits>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -50,7 +51,7 @@ vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& i
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
+    float maxOutputValue = numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-- 
2.43.0


From 8e3942a2a6f6b30b9a8c47d05b67f53948b951f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 21/54] fix: keep the mean absolute error criterion of waits
 combined with &&

---
 src/neural_network/Wait.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..d7d7532 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae > 0 && wait.mae > 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 339f7d3e0bcd6b378af8a3cf84afb71e2e00507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 22/54] fix: compute the derivative of iSigmoid with its linear
 term and without overflow

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..028ae92 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,7 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            return (1.0f - powf(tanhf(x / 2.0f), 2.0f)) / 4.0f + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From dcbc037f4d52748c03489f33aa804ec970d3bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 23/54] fix: refuse to mix || and && whichever side of the
 operator the other one is on

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index d7d7532..f5387b1 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From a4764b33b48200d74031583c8c19999f9301c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 24/54] fix: detect infinite and NaN outputs in builds with
 -ffast-math

---
 src/neural_network/NeuralNetwork.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 62e7cfe..1209343 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -1,4 +1,6 @@
+#include <bit>
 #include <cmath>
+#include <cstdint>
 #include <ctime>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
@@ -10,6 +12,13 @@ using namespace std;
 using namespace snn;
 using namespace internal;
 
+inline
+bool isNotFinite(const float& value) // isfinite and fpclassify are always optimized out with the option -ffast-math
+{
+    constexpr uint32_t exponentMask = 0x7f800000;
+    return (bit_cast<uint32_t>(value) & exponentMask) == exponentMask;
+}
+
 NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOptimizerModel optimizer)
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
@@ -64,7 +73,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +86,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From 7c2b3f2d61192cf1e21023b1cde0a33dff654840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 25/54] fix: refuse to copy a neural network that is training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index aa5007c..915e560 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -34,7 +34,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From 93f9b02c092acd9b803d14dcff495b8e53a8a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 26/54] fix: load auto saves as idle neural networks

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 915e560..15aff96 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -184,7 +184,8 @@ void StraightforwardNeuralNetwork::evaluateOnce(const Data& data)
 
 void StraightforwardNeuralNetwork::stopTrainingAsync()
 {
-    this->wantToStopTraining = true;
+    if (!this->isIdle)
+        this->wantToStopTraining = true;
     if (this->thread.joinable())
     {
         log<minimal>("Stop training");
@@ -299,6 +300,8 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    neuralNetwork->wantToStopTraining = false;
+    neuralNetwork->isIdle = true; // an auto save is written during a training
     return *neuralNetwork;
 }
 
-- 
2.43.0


From ae6b6b922413e1d4a29b64dea0813a978383ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 27/54] fix: do not lose a request to stop made before the
 training thread runs

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 15aff96..526e56d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -74,6 +74,8 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
+    this->wantToStopTraining = false;
+    this->isIdle = false;
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
@@ -83,6 +85,8 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->wantToStopTraining = false;
+    this->isIdle = false;
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -92,8 +96,6 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     wait.startClock();
     this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
-- 
2.43.0


From 42d4ceb52a9fe02cd6c0465d49c270fa7187ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 28/54] fix: make the neural network idle again when its
 training fails

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 526e56d..41ff177 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -87,7 +87,15 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     this->stopTrainingAsync();
     this->wantToStopTraining = false;
     this->isIdle = false;
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
-- 
2.43.0


From 8195534e4e80931f9930690047b9bbff57390b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 29/54] fix: do not dereference a null pointer in evaluate

---
 include/snn/neural_network/StraightforwardNeuralNetwork.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..8fd67d3 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -62,7 +62,11 @@ namespace snn
         void waitFor(Wait wait) const;
         void train(Data& data, Wait wait, int batchSize = 1, int evaluationFrequency = 1);
 
-        void evaluate(const Data& data) { return this->evaluate(data, nullptr); }
+        void evaluate(const Data& data)
+        {
+            Wait wait;
+            this->evaluate(data, &wait);
+        }
 
         std::vector<float> computeOutput(const std::vector<float>& inputs, bool temporalReset = false);
         int computeCluster(const std::vector<float>& inputs, bool temporalReset = false);
-- 
2.43.0


From ed5a8cee413197fa8742e4be62d71cdd47d13dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 30/54] fix: report a save that could not be written

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 41ff177..fcd519b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -299,8 +299,13 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
     this->autoSaveFilePath = filePath;
     ofstream ofs(filePath);
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
+    {
+        boost::archive::text_oarchive archive(ofs);
+        archive << this;
+    }
+    ofs.close();
+    if (!ofs)
+        throw runtime_error("Neural network cannot be saved in " + filePath);
 }
 
 
-- 
2.43.0


From bbdd2917c8054c9c354a0dd0f239cd477707ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 31/54] fix: compare the number of optimizers of two layers

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From f4c5ce27c3d2c7dc99369b2f1d632f134ef5471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 32/54] fix: print the shapes of recurrent and locally
 connected layers correctly in the summary

---
 src/neural_network/layer/GruLayer.cpp           | 4 ++--
 src/neural_network/layer/LocallyConnected1D.cpp | 2 +-
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/Recurrence.cpp         | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/LocallyConnected1D.cpp b/src/neural_network/layer/LocallyConnected1D.cpp
index 93f7405..3858b0d 100644
--- a/src/neural_network/layer/LocallyConnected1D.cpp
+++ b/src/neural_network/layer/LocallyConnected1D.cpp
@@ -71,7 +71,7 @@ std::string LocallyConnected1D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected1D";
+    ss << " LocallyConnected1D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
     ss << "                Filters: " << this->numberOfFilters << endl;
     ss << "                Kernel size: " << this->kernelSize << endl;
diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index f756674..c160834 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -81,7 +81,7 @@ std::string LocallyConnected2D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected2D";
+    ss << " LocallyConnected2D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
     ss << "                Filters: " << this->numberOfFilters << endl;
     ss << "                Kernel size: " << this->kernelSize << "x" << this->kernelSize << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From 3c8e6d9b75e8042e3f17efc6ad7f52c914bdfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 33/54] fix: find the minimum and the maximum of a vector of
 one value

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..4e3dff9 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -68,7 +68,7 @@ namespace snn::tools
     template <typename T>
     static T getMinValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T minValue = vector[0];
 
@@ -87,7 +87,7 @@ namespace snn::tools
     template <typename T>
     static T getMaxValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T maxValue = vector[0];
 
-- 
2.43.0


From d4121abadffb1021b5488c25745d901255392f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 34/54] fix: compute the third coordinate in roughenZ

---
 include/snn/tools/Tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 4e3dff9..b1d5358 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -195,6 +195,6 @@ namespace snn::tools
 
     constexpr int roughenZ(const int index, const int maxX, const int maxY)
     {
-        return index % (maxX * maxY);
+        return index / (maxX * maxY);
     }
 }
-- 
2.43.0


From b646f281533942abdc51b596a302c1774f61dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 35/54] fix: do not repeat the hours in the minutes and the
 minutes in the seconds of a duration

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index b1d5358..a57fa87 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -50,11 +50,11 @@ namespace snn::tools
         std::string str;
 
         if (duration.count() > 3600000)
-            return std::to_string(duration.count() / 3600000) + "h " + std::to_string(duration.count() / 60000) +
+            return std::to_string(duration.count() / 3600000) + "h " + std::to_string(duration.count() / 60000 % 60) +
                 "min";
 
         if (duration.count() > 60000)
-            return std::to_string(duration.count() / 60000) + "min " + std::to_string(duration.count() / 1000) + "s";
+            return std::to_string(duration.count() / 60000) + "min " + std::to_string(duration.count() / 1000 % 60) + "s";
 
         if (duration.count() > 1000)
             return std::to_string(duration.count() / 1000) + "s";
-- 
2.43.0


From ac5a2bfe2153aade2aa1c4a1e893520ddebc1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 36/54] fix: read the weights of existing neurons only when
 drawing the feature maps

---
 .../NeuralNetworkVisualization.cpp            | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..c8b4b0e 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -53,19 +53,25 @@ std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLay
     auto filterSize = filterLayer->getKernelSize();
     auto neuronByFilter = outputShape[X] * outputShape[Y];
     vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
+    if (filterLayer->getNumberOfNeurons() == 0)
+        return weights;
+    const bool hasSharedNeurons = filterLayer->getNumberOfNeurons() == outputShape[C];
+    const int stride = hasSharedNeurons ? 1 : filterSize;
     for (int n = 0; n < neuronByFilter; ++n)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
+        const int neuronIndex = hasSharedNeurons ? filterNumber : n * outputShape[C] + filterNumber;
+        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(neuronIndex))->getWeights();
+        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]) * stride;
+        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]) * stride;
 
-        for (int y = 0; y < filterSize; ++y)
+        for (int y = 0; y < filterSize && neuronPositionY + y < inputShape[Y]; ++y)
         {
-            for (int x = 0; x < filterSize; ++x)
+            for (int x = 0; x < filterSize && neuronPositionX + x < inputShape[X]; ++x)
             {
                 const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
-                const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
+                const int j = flatten(x, y, filterSize) * inputShape[C];
+                for (int c = 0; c < inputShape[C]; ++c)
+                    weights[i] += neuronWeight[j + c];
             }
         }
     }
-- 
2.43.0


From c04f88a57858f1aa0b70db774635f601925c0297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 37/54] fix: draw the 2D data that have neither 1 nor 3
 channels

---
 src/neural_network/NeuralNetworkVisualization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index c8b4b0e..4122ca5 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -121,12 +121,12 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
         return;
     bitmap_image image(shapeOfInput[X], shapeOfInput[Y]);
     image.set_all_channels(0, 0, 0);
-    int index = 0;
     for (int y = 0; y < shapeOfInput[Y]; ++y)
     {
         for (int x = 0; x < shapeOfInput[X]; ++x)
         {
-            if (shapeOfInput[C] == 1)
+            int index = flatten(x, y, shapeOfInput[X]) * shapeOfInput[C];
+            if (shapeOfInput[C] < 3)
             {
                 const auto color = static_cast<unsigned char>(inputs[index++] * 255.0f);
                 image.set_pixel(x, y, color, color, color);
-- 
2.43.0


From 5046c553b8bc6fa23541ddcc2da76b11b702e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 38/54] fix: keep constant inputs inside the bounds of the
 normalization

---
 src/data/Data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 50449e3..88e6f3e 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -245,14 +245,16 @@ void Data::normalize(const float min, const float max)
 
             for (size_t i = 0; i < inputsTraining.size(); i++)
             {
+                inputsTraining[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTraining[i][j] = (inputsTraining[i][j] - minValueOfVector) / difference;
+                    inputsTraining[i][j] /= difference;
                 inputsTraining[i][j] = inputsTraining[i][j] * (max - min) + min;
             }
             for (size_t i = 0; i < inputsTesting.size(); i++)
             {
+                inputsTesting[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTesting[i][j] = (inputsTesting[i][j] - minValueOfVector) / difference;
+                    inputsTesting[i][j] /= difference;
                 inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;
             }
         }
-- 
2.43.0


From 297bb608e0389b90c4de1b1482114f6f555dbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 39/54] fix: keep a criterion of zero when waits are combined

---
 src/neural_network/Wait.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f5387b1..9799975 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
@@ -44,7 +44,7 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.mae > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
-- 
2.43.0


From 71bcfaf4af840fc871a81e81f7083d9f500b187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 40/54] fix: do not let waitFor see the epoch of the previous
 training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index fcd519b..9a21026 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -76,6 +76,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     log<complete>("Start a new thread");
     this->wantToStopTraining = false;
     this->isIdle = false;
+    this->epoch = 0; // the epoch of the previous training must not end a wait on this one
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
-- 
2.43.0


From 7ee8f8285dfc5e9401a74a9781804c0b87a16198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 41/54] fix: declare the minimum that GELU reaches

---
 .../neural_network/layer/neuron/activation_function/GELU.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
index c18f9f9..8f1319e 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
@@ -15,7 +15,7 @@ namespace snn::internal
 
     public:
         GaussianErrorLinearUnit()
-            : ActivationFunction(0, std::numeric_limits<float>::infinity())
+            : ActivationFunction(-0.163613f, std::numeric_limits<float>::infinity())
         {
         }
 
-- 
2.43.0


From bfc910af072b38c25d284d326acfaabcd1f05f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 42/54] fix: an output that is not finite for the last testing
 data gives statistics that are not a number

---
 .../StraightforwardNeuralNetwork.cpp              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9a21026..2e69c88 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -137,21 +137,20 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
 {
     this->startTesting();
-    for (this->index = 0; this->index < data.sets[testing].size; this->index++)
+    for (this->index = 0; this->index < data.sets[testing].size && !this->hasNan(); this->index++)
     {
-        if (this->hasNan())
-        {
-            this->setResultsAsNan();
-            this->resetTrainingValues();
-            return;
-        }
-
         if (data.needToEvaluateOnTestingData(this->index))
             this->evaluateOnce(data);
         else
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
         this->logInProgress<minimal>(*wait, data, testing);
     }
+    if (this->hasNan()) // the last testing data included
+    {
+        this->setResultsAsNan();
+        this->resetTrainingValues();
+        return;
+    }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
-- 
2.43.0


From f09972251bde3499f9fe63320969328f309c5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 43/54] fix: load back the values that are not finite

---
 .../StraightforwardNeuralNetwork.cpp          | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 2e69c88..aaee1b6 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,5 +1,7 @@
+#include <charconv>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -15,6 +17,24 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+// The standard streams write the values that are not finite but cannot read them
+class NonFiniteNumGet final : public num_get<char>
+{
+protected:
+    iter_type do_get(iter_type in, iter_type end, ios_base&, ios_base::iostate& err, float& value) const override
+    {
+        string str;
+        while (in != end && *in != ' ' && *in != '\n')
+            str += *in++;
+        const auto result = from_chars(str.data(), str.data() + str.size(), value);
+        if (result.ec != errc() || result.ptr != str.data() + str.size())
+            err |= ios_base::failbit;
+        if (in == end)
+            err |= ios_base::eofbit;
+        return in;
+    }
+};
+
 StraightforwardNeuralNetwork::~StraightforwardNeuralNetwork()
 {
     this->stopTrainingAsync();
@@ -313,6 +333,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    ifs.imbue(locale(ifs.getloc(), new NonFiniteNumGet()));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     neuralNetwork->wantToStopTraining = false;
-- 
2.43.0


From 31b62d5bb857dc9671843487662826c5fd1f1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 44/54] fix: keep in the saved file that an output was not
 finite

---
 include/snn/neural_network/NeuralNetwork.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 49c54af..4a47fd7 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -97,8 +97,11 @@ namespace snn::internal
         if (version >= 1) {
             ar & this->numberOfTraining;
         }
+        if (version >= 2) {
+            ar & this->outputNan;
+        }
         ar & this->layers;
         ar & this->optimizer;
     }
 }
-BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 1)
+BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 2)
-- 
2.43.0


From 40aa0dfa907bab40438476a71b7dd9d4d9ac1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 45/54] fix: a wait ends when the error or the accuracy is
 exactly zero

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 9799975..b60bcc4 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -66,8 +66,8 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
-    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From 708143e8044acfaff8856f596e325e7887de7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 46/54] fix: refuse sequential data without sequences instead
 of reading a null pointer

---
 src/data/CompositeForTemporalData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index dc5ae87..219c7ca 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i < this->sets[training].size; ++i)
+    for (int i = 0; i < static_cast<int>(this->sets[training].areFirstDataOfTemporalSequence.size()); ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
-- 
2.43.0


From b6e785ff14d00199e7041ab05ff74e168faa3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 47/54] fix: spread random integers over the whole of a range
 that has negative values

---
 src/tools/Tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/Tools.cpp b/src/tools/Tools.cpp
index 6332d1d..8ea3985 100644
--- a/src/tools/Tools.cpp
+++ b/src/tools/Tools.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 #include "Tools.hpp"
 
 namespace snn::tools
@@ -6,7 +7,7 @@ namespace snn::tools
     int randomBetween(const int min, const int max) // [min; max[
     {
         std::uniform_real_distribution<> dist(min, max);
-        return static_cast<int>(dist(rng));
+        return static_cast<int>(std::floor(dist(rng))); // a cast alone would give 0 too often and never a negative min
     }
 
     float randomBetween(const float min, const float max)
-- 
2.43.0


From 5a9065c76bc9bd4b278a38efd369e38db7c284e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 48/54] fix: keep the derivative of the gaussian finite for the
 greatest inputs

---
 .../layer/neuron/activation_function/Gaussian.hpp            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp b/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
index 64865e2..261e4da 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
@@ -26,7 +26,10 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return -2 * x * std::exp(-powf(x, 2));
+            const float value = this->function(x);
+            if (value == 0.0f) // 2 * x may be infinite
+                return 0.0f;
+            return -2 * x * value;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 2055cb9a6ae72d3a86a7c4a1d0033bbd63f949a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 49/54] fix: a save that fails does not change the path of the
 automatic save

---
 .../StraightforwardNeuralNetwork.cpp          | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index aaee1b6..7633cde 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -317,15 +317,24 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
+    const auto previousFilePath = this->autoSaveFilePath;
     this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
+    try
     {
-        boost::archive::text_oarchive archive(ofs);
-        archive << this;
+        ofstream ofs(filePath);
+        {
+            boost::archive::text_oarchive archive(ofs);
+            archive << this;
+        }
+        ofs.close();
+        if (!ofs)
+            throw runtime_error("Neural network cannot be saved in " + filePath);
+    }
+    catch (...)
+    {
+        this->autoSaveFilePath = previousFilePath;
+        throw;
     }
-    ofs.close();
-    if (!ofs)
-        throw runtime_error("Neural network cannot be saved in " + filePath);
 }
 
 
-- 
2.43.0


From 94e37aae16ed8c3d9fecc4bab48d769ad9f6e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 50/54] fix: a training in the background that fails does not
 terminate the program

---
 .../StraightforwardNeuralNetwork.hpp           |  2 ++
 .../StraightforwardNeuralNetwork.cpp           | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 8fd67d3..e878b95 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <exception>
 #include <string>
 #include <vector>
 #include <thread>
@@ -16,6 +17,7 @@ namespace snn
     {
     private:
         std::thread thread;
+        std::exception_ptr trainingError = nullptr; // that ended the training in the background
 
         bool wantToStopTraining = false;
         bool isIdle = true;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 7633cde..9e003fb 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -97,7 +97,19 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->wantToStopTraining = false;
     this->isIdle = false;
     this->epoch = 0; // the epoch of the previous training must not end a wait on this one
-    this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+    this->trainingError = nullptr;
+    this->thread = std::thread([this, &data, batchSize, evaluationFrequency]
+    {
+        try
+        {
+            this->trainSync(data, Wait(), batchSize, evaluationFrequency);
+        }
+        catch (...) // as an automatic save that fails, must not terminate the program
+        {
+            this->trainingError = current_exception();
+            this->resetTrainingValues();
+        }
+    });
 }
 
 void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, int evaluationFrequency)
@@ -108,6 +120,7 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     this->stopTrainingAsync();
     this->wantToStopTraining = false;
     this->isIdle = false;
+    this->trainingError = nullptr;
     try
     {
         this->trainSync(data, wait, batchSize, evaluationFrequency);
@@ -251,6 +264,9 @@ void StraightforwardNeuralNetwork::waitFor(Wait wait) const
     {
         this_thread::sleep_for(1ms);
 
+        if (this->isIdle && this->trainingError != nullptr)
+            rethrow_exception(this->trainingError);
+
         const auto epochs = this->getCurrentEpoch();
         const auto accuracy = this->getGlobalClusteringRate();
         const auto mae = this->getMeanAbsoluteError();
-- 
2.43.0


From ed0a0981f71b3af1a1246ac6b2c6136fd10b0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 51/54] hook: let a define choose the level of the log
 (SNN_VERBOSE)

---
 include/snn/tools/Tools.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index a57fa87..e76ff59 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -22,7 +22,11 @@ namespace snn
         complete = 2
     };
 
+#ifdef SNN_VERBOSE // hook for the verification: to build with the log
+    static constexpr logLevel verbose = SNN_VERBOSE;
+#else
     static constexpr logLevel verbose = none;
+#endif
 }
 
 namespace snn::internal
-- 
2.43.0


From d8868551ae55cc66c3f209efbb027ce3748e4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 52/54] fix: combining waits does not change its operands

---
 include/snn/neural_network/Wait.hpp |  8 ++++++--
 src/neural_network/Wait.cpp         | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 2b26d10..ddbd808 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -20,13 +20,17 @@ namespace snn
         std::chrono::time_point<std::chrono::system_clock> lastReset;
         std::chrono::time_point<std::chrono::system_clock> lastTick;
         waitOperator op = waitOperator::noneOp;
-        Wait& operator||(const Wait& wait);
-        Wait& operator&&(const Wait& wait);
+        Wait operator||(const Wait& wait) const;
+        Wait operator&&(const Wait& wait) const;
         void startClock();
         [[nodiscard]] bool isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const;
         [[nodiscard]] int tick(); // Time since last tick in milliseconds
         [[nodiscard]] float getDuration();
         [[nodiscard]] float getDurationAndReset();
+
+    private:
+        Wait& mergeOr(const Wait& wait);
+        Wait& mergeAnd(const Wait& wait);
     };
 
     extern Wait operator""_ep(unsigned long long value);
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index b60bcc4..cfeba47 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -7,7 +7,19 @@ using namespace chrono;
 using namespace snn;
 
 
-Wait& Wait::operator||(const Wait& wait)
+Wait Wait::operator||(const Wait& wait) const
+{
+    Wait res = *this;
+    return res.mergeOr(wait);
+}
+
+Wait Wait::operator&&(const Wait& wait) const
+{
+    Wait res = *this;
+    return res.mergeAnd(wait);
+}
+
+Wait& Wait::mergeOr(const Wait& wait)
 {
     if (op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
@@ -34,7 +46,7 @@ Wait& Wait::operator||(const Wait& wait)
     return *this;
 }
 
-Wait& Wait::operator&&(const Wait& wait)
+Wait& Wait::mergeAnd(const Wait& wait)
 {
     if (op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
-- 
2.43.0


From 6c87b87cd72dd9db3678182fdf6c68cf967343c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:19 +0000
Subject: [PATCH 53/54] fix: log the duration of an evaluation instead of the
 time since 1970

---
 include/snn/neural_network/StraightforwardNeuralNetwork.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e878b95..c442953 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -67,6 +67,7 @@ namespace snn
         void evaluate(const Data& data)
         {
             Wait wait;
+            wait.startClock();
             this->evaluate(data, &wait);
         }
 
-- 
2.43.0


From cb3821111c3b27131d02f562de47d5f912e0f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:42 +0000
Subject: [PATCH 54/54] fix: save and load networks independently of the locale
 of the program

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9e003fb..afe5f34 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -338,6 +338,7 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
     try
     {
         ofstream ofs(filePath);
+        ofs.imbue(locale::classic()); // the file does not depend on the locale of the program
         {
             boost::archive::text_oarchive archive(ofs);
             archive << this;
@@ -358,7 +359,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
-    ifs.imbue(locale(ifs.getloc(), new NonFiniteNumGet()));
+    ifs.imbue(locale(locale::classic(), new NonFiniteNumGet())); // as it was saved
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     neuralNetwork->wantToStopTraining = false;
-- 
2.43.0

